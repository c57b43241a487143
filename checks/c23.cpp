// C23: the decoder tool (its main, called in the process) and the command line parser.
#include "streams.h"
#include <IOHaptics/include/IOJson.h>
#include <IOHaptics/include/IOStream.h>
#include <Tools/include/InputParser.h>
#include <filesystem>
#include <sstream>
using namespace doc;
using namespace gen;
using haptics::io::IOJson;
using haptics::io::IOStream;
using haptics::tools::InputParser;
namespace ht = haptics::types;
namespace fs = std::filesystem;
int Decoder_main(int argc, char *argv[]);

namespace {
struct Result {
  int code = -1;
  std::string out, error;
};
// Runs the tool in the current folder.
Result tool(const std::vector<std::string> &words) {
  Result res;
  std::vector<std::string> all = {"Decoder"};
  all.insert(all.end(), words.begin(), words.end());
  std::vector<char *> argv;
  for (auto &w : all) argv.push_back(w.data());
  argv.push_back(nullptr);
  std::ostringstream o;
  auto *old = std::cout.rdbuf(o.rdbuf());
  std::cout.clear();
  try {
    res.code = Decoder_main(static_cast<int>(all.size()), argv.data());
  } catch (const std::exception &e) {
    res.error = e.what();
  }
  std::cout.rdbuf(old);
  res.out = o.str();
  return res;
}
bool helpShown(const Result &r) { return r.out.find("usage") != std::string::npos && r.out.find("--output") != std::string::npos; }
// What the library makes of a stream: the HJIF text, or nothing.
bool library(const std::string &stream, std::string &text, bool &dated) {
  const std::string path = "library.hjif";
  fs::remove(path);
  try {
    ht::Haptics h;
    if (!IOStream::readFile(stream, h)) return false;
    IOJson::writeFile(h, path);
    text = slurp(path);
    dated = text.find("\"date\":\"" + h.getDate() + "\"") != std::string::npos;
  } catch (const std::exception &) {
    return false;
  }
  fs::remove(path);
  return true;
}
std::string undated(std::string s) { // a stream without a valid date gets the present one
  const auto at = s.find("\"date\":\"");
  if (at == std::string::npos) return s;
  const auto end = s.find('"', at + 8);
  return s.erase(at + 8, end - at - 8);
}
// An empty folder to work in.
void fresh() {
  static const std::string dir = [] {
    const auto d = mc::scratch() + "/c23";
    fs::create_directories(d);
    fs::current_path(d);
    return d;
  }();
  for (auto &f : fs::directory_iterator(dir)) fs::remove_all(f.path());
}
std::vector<std::string> filesHere() {
  std::vector<std::string> l;
  for (auto &f : fs::directory_iterator(fs::current_path())) l.push_back(f.path().filename().string());
  std::sort(l.begin(), l.end());
  return l;
}
std::string encode(const Doc &d, int duration) {
  const auto path = mc::scratch() + "/c23-stream";
  fs::remove(path);
  auto h = toHaptics(d);
  IOStream::writeFile(h, path, duration);
  return slurp(path);
}
const std::string &goodStream() {
  static const std::string s = encode(streams::base(false), 128);
  return s;
}
std::string hex(const std::string &s) {
  std::string o;
  char b[4];
  for (unsigned char c : s) {
    std::snprintf(b, sizeof b, "%02x", c);
    o += b;
  }
  return o;
}
// The tool's result on a stream against the library's.
void compare(mc::Run &r, const std::string &stream, const std::vector<std::string> &words, bool before) {
  fresh();
  spew("in.mihs", stream);
  std::string expected;
  bool dated = true;
  const bool good = library("in.mihs", expected, dated);
  if (before) spew("out.hjif", std::string(100000, '?'));
  const auto res = tool(words);
  REQUIRE(r, res.error.empty(), "crash", "the tool ended in the exception " + res.error);
  REQUIRE(r, good == (res.code == 0), "status", std::string("exit status ") + std::to_string(res.code) + " though the library " + (good ? "reads and writes the stream" : "cannot read and write the stream"));
  if (good) {
    const auto got = slurp("out.hjif");
    REQUIRE(r, dated ? got == expected : undated(got) == undated(expected), "output", "the tool wrote " + got.substr(0, 600) + "\nthe library " + expected.substr(0, 600));
  }
  for (auto &f : filesHere()) REQUIRE(r, f == "in.mihs" || (f == "out.hjif" && (good || before)), "other-files", "the tool left a file " + f);
  REQUIRE(r, slurp("in.mihs") == stream, "input-changed", "the tool changed its input");
  r.tag(good ? "good" : "bad");
  r.step();
  r.state(good ? expected : "bad");
}
const std::vector<std::vector<std::string>> WORDS = {{"-f", "in.mihs", "-o", "out.hjif"}, {"--output", "out.hjif", "--file", "in.mihs"}, {"--file", "in.mihs", "-x", "-o", "out.hjif"}, {"y", "-o", "out.hjif", "--verbose", "-f", "in.mihs", "z"}};

void streamFiles(mc::Run &r) { // every kind of content
  const bool isRich = r.flip();
  static const std::vector<Tweak> tweaks = families(tweaksFor(M));
  const int t = r.choose(static_cast<int>(tweaks.size()) + 1);
  if (!r.go()) return;
  Doc d = streams::base(isRich);
  if (t) apply(d, {&tweaks[static_cast<size_t>(t) - 1]});
  if (!streams::streamable(d)) return;
  const int duration = r.pick(std::vector<int>{37, 128, 1000000});
  const auto &w = WORDS[static_cast<size_t>(r.choose(static_cast<int>(WORDS.size())))];
  const bool before = r.flip();
  r.describe([&] { return dump(d) + " in packets of " + std::to_string(duration); });
  compare(r, encode(d, duration), w, before);
}
void damaged(mc::Run &r) { // cut off, a byte changed: the tool fails exactly when the library does
  const bool isRich = r.flip();
  static const std::vector<Tweak> tweaks = families(tweaksFor(M));
  const int t = isRich ? 0 : r.choose(static_cast<int>(tweaks.size()) + 1);
  if (!r.go()) return;
  Doc d = streams::base(isRich);
  if (t) apply(d, {&tweaks[static_cast<size_t>(t) - 1]});
  if (!streams::streamable(d)) return;
  std::string s = encode(d, 128);
  if (s.size() > 1500 && !isRich) return;
  const auto n = static_cast<size_t>(r.choose(static_cast<int>(s.size())));
  const bool many = r.thorough() || (!isRich && !t);
  const int k = r.choose(many ? 11 : 4);
  std::string bad = s;
  if (k == 0) bad = s.substr(0, n);
  else bad[n] = static_cast<char>(k == 1 ? 0xff : k == 2 ? 0 : s[n] ^ (1 << (many ? k - 3 : 0)));
  r.describe([&] { return "stream with byte " + std::to_string(n) + (k ? " changed to " + std::to_string(static_cast<unsigned char>(bad[n])) : " missing, and all after it") + ": " + hex(bad); });
  compare(r, bad, WORDS[0], false);
}
// What the tool has to do for a command line, from the help text.
struct Plan {
  bool help = false, fails = false;
  std::string in, out;
};
std::string after(const std::vector<std::string> &w, const std::string &option) {
  for (size_t i = 0; i + 1 < w.size(); i++)
    if (w[i] == option) return w[i + 1];
  return "";
}
bool has(const std::vector<std::string> &w, const std::string &option) { return std::count(w.begin(), w.end(), option) > 0; }
void options(mc::Run &r) { // every command line of a few words
  static const std::vector<std::string> ALPHABET = {"-f", "--file", "-o", "--output", "-h", "--help", "in.mihs", "out.hjif", "missing", "-x", ""};
  std::vector<std::string> w;
  const int most = r.thorough() ? 6 : 5;
  for (int i = 0; i < most; i++) {
    const int k = r.choose(static_cast<int>(ALPHABET.size()) + 1);
    if (i == 1 || (i == 0 && !k))
      if (!r.go()) return;
    if (!k) break;
    w.push_back(ALPHABET[static_cast<size_t>(k) - 1]);
  }
  r.describe([&] {
    std::string s = "Decoder";
    for (auto &x : w) s += " '" + x + "'";
    return s;
  });
  fresh();
  spew("in.mihs", goodStream());
  static const std::string expected = [] {
    std::string text;
    bool dated = false;
    library("in.mihs", text, dated);
    return dated ? text : "";
  }();
  REQUIRE(r, !expected.empty(), "library", "the library cannot decode the stream");
  const auto res = tool(w);
  REQUIRE(r, res.error.empty(), "crash", "the tool ended in the exception " + res.error);
  // -f and --file are the same option: the value of the one that is there. Where both are there the short
  // one counts, which the help text leaves open.
  std::string in = after(w, "-f"), out = after(w, "-o");
  if (in.empty()) in = after(w, "--file");
  if (out.empty()) out = after(w, "--output");
  auto here = filesHere();
  r.step();
  r.state(std::to_string(res.code) + in + "|" + out + (helpShown(res) ? "help" : ""));
  if (has(w, "-h") || has(w, "--help")) {
    r.tag("help");
    REQUIRE(r, res.code == 0 && helpShown(res), "help", "help was asked for: status " + std::to_string(res.code) + ", printed " + res.out);
    REQUIRE(r, here == std::vector<std::string>{"in.mihs"} && slurp("in.mihs") == goodStream(), "help-files", "asking for help changed files");
    return;
  }
  if (in.empty() || out.empty()) {
    r.tag("incomplete");
    REQUIRE(r, res.code != 0 && helpShown(res), "incomplete", "an option is missing: status " + std::to_string(res.code) + ", printed " + res.out);
    REQUIRE(r, here == std::vector<std::string>{"in.mihs"} && slurp("in.mihs") == goodStream(), "incomplete-files", "an incomplete command line changed files");
    return;
  }
  if (in != "in.mihs") {
    r.tag("missing");
    REQUIRE(r, res.code != 0, "missing-input", "the input " + in + " does not exist, but the status is 0");
    REQUIRE(r, here == std::vector<std::string>{"in.mihs"} && slurp("in.mihs") == goodStream(), "missing-input-files", "files changed though there was no input");
    return;
  }
  r.tag("decoded");
  REQUIRE(r, res.code == 0, "good-status", "status " + std::to_string(res.code) + " for a good command line");
  std::vector<std::string> want = {"in.mihs"};
  if (out != "in.mihs") want.push_back(out);
  std::sort(want.begin(), want.end());
  REQUIRE(r, here == want, "good-files", "the output " + out + " is missing, or other files are there");
  REQUIRE(r, slurp(out) == expected, "good-output", "the output is " + slurp(out).substr(0, 400));
  REQUIRE(r, out == "in.mihs" || slurp("in.mihs") == goodStream(), "good-input", "the input changed");
}
void files(mc::Run &r) { // inputs and outputs that cannot be used
  const int input = r.choose(5), output = r.choose(6);
  if (!r.go()) return;
  fresh();
  spew("in.mihs", goodStream());
  std::string expected;
  bool dated = false;
  library("in.mihs", expected, dated);
  fs::create_directory("folder");
  spew("empty", "");
  spew("file", "x");
  fs::create_symlink("in.mihs", "link");
  const std::string in = std::vector<std::string>{"in.mihs", "folder", "empty", "nowhere/in.mihs", "link"}[static_cast<size_t>(input)];
  const std::string out = std::vector<std::string>{"out.hjif", "folder", "nowhere/out.hjif", "file/out.hjif", "/dev/full", "folder/out.hjif"}[static_cast<size_t>(output)];
  const bool inGood = input == 0 || input == 4, outGood = output == 0 || output == 5;
  r.describe([&] { return "Decoder -f " + in + " -o " + out; });
  const auto res = tool({"-f", in, "-o", out});
  REQUIRE(r, res.error.empty(), "crash", "the tool ended in the exception " + res.error);
  REQUIRE(r, (res.code == 0) == (inGood && outGood), "status", std::string("status ") + std::to_string(res.code) + (inGood ? " with a good" : " with an unusable") + " input and " + (outGood ? "a good" : "an unusable") + " output");
  if (inGood && outGood) REQUIRE(r, slurp(out) == expected, "output", "the output is " + slurp(out).substr(0, 400));
  REQUIRE(r, slurp("in.mihs") == goodStream() && slurp("file") == "x" && slurp("empty").empty(), "others", "other files changed");
  r.step();
  r.state(static_cast<uint64_t>(input * 6 + output));
}
void lookup(mc::Run &r) { // the parser itself
  static const std::vector<std::string> ALPHABET = {"-a", "-ab", "--a", "a", "", "-a=1", "A"};
  std::vector<std::string> w;
  const int most = r.thorough() ? 7 : 6;
  for (int i = 0; i < most; i++) {
    const int k = r.choose(static_cast<int>(ALPHABET.size()) + 1);
    if (i == 1 || (i == 0 && !k))
      if (!r.go()) return;
    if (!k) break;
    w.push_back(ALPHABET[static_cast<size_t>(k) - 1]);
  }
  r.describe([&] {
    std::string s = "words";
    for (auto &x : w) s += " '" + x + "'";
    return s;
  });
  std::vector<const char *> raw;
  for (auto &x : w) raw.push_back(x.c_str());
  InputParser p(raw);
  for (auto &o : std::vector<std::string>{"-a", "-ab", "--a", "-b", "a", ""}) {
    REQUIRE(r, p.cmdOptionExists(o) == has(w, o), "exists", "whether option '" + o + "' is there");
    // the word behind the first occurrence, nothing when there is none
    std::string want;
    for (size_t i = 0; i < w.size(); i++)
      if (w[i] == o) {
        if (i + 1 < w.size()) want = w[i + 1];
        break;
      }
    REQUIRE(r, p.getCmdOption(o) == want, "value", "value of option '" + o + "' is '" + p.getCmdOption(o) + "' instead of '" + want + "'");
  }
  r.step();
  r.state(mc::hashStr(r.thorough() ? std::to_string(w.size()) : p.getCmdOption("-a") + "|" + p.getCmdOption("--a")));
}
void extension(mc::Run &r) { // of names of files: what is behind the last dot
  std::string s;
  const int most = r.thorough() ? 9 : 7;
  for (int i = 0; i < most; i++) {
    const int k = r.choose(5);
    if (i == 1 || (i == 0 && !k))
      if (!r.go()) return;
    if (!k) break;
    s += "a.B_"[k - 1];
  }
  std::string want;
  for (size_t i = s.size(); i-- > 0;)
    if (s[i] == '.') {
      want = s.substr(i + 1);
      break;
    }
  std::string copy = s;
  const auto got = InputParser::getFileExt(copy);
  r.describe([&] { return "name '" + s + "'"; });
  REQUIRE(r, got == want, "extension", "the extension of '" + s + "' is '" + got + "' instead of '" + want + "'");
  REQUIRE(r, copy == s, "name-changed", "asking for the extension changed the name");
  r.step();
  r.state(got);
}
} // namespace

int main(int argc, char **argv) {
  std::cerr.setstate(std::ios::failbit);
  return mc::runMain(argc, argv, "C23", {{"files", files}, {"options", options}, {"streams", streamFiles}, {"damaged", damaged}, {"lookup", lookup}, {"extension", extension}});
}
