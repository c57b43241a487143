// C10: the arithmetic coder is lossless for every symbol sequence and context assignment.
#include "mc.h"
#include <Spiht/include/ArithDec.h>
#include <Spiht/include/ArithEnc.h>
#include <sstream>

using haptics::spiht::ArithDec;
using haptics::spiht::ArithEnc;
using Seq = std::vector<std::pair<int, int>>; // symbol, context

namespace {

std::string show(const Seq &s) {
  std::ostringstream o;
  size_t i = 0;
  while (i < s.size()) {
    size_t j = i;
    while (j < s.size() && s[j] == s[i]) j++;
    o << s[i].first << "@" << s[i].second;
    if (j - i > 1) o << "x" << (j - i);
    o << " ";
    i = j;
  }
  return o.str();
}

std::string cls(const Seq &s) {
  bool zero = true;
  for (auto &p : s) zero = zero && p.first == 0;
  return s.empty() ? "empty" : zero ? "zeros" : "mixed";
}

struct Codec {
  ArithEnc enc;
  ArithDec dec;
};

// One sequence through a codec pair; both sides then rescale (the encoder does it itself) or reset.
void roundTrip(mc::Run &r, Codec &c, const Seq &s, bool bytes, bool reset) {
  std::vector<unsigned char> in, out;
  std::vector<int> ctx;
  for (auto &p : s) {
    in.push_back(static_cast<unsigned char>(p.first));
    ctx.push_back(p.second);
  }
  auto inCopy = in;
  auto ctxCopy = ctx;
  c.enc.encode(in, ctx, out);
  REQUIRE(r, in == inCopy && ctx == ctxCopy, "input-changed", "encode changed its input: " + show(s));
  for (auto b : out) REQUIRE(r, b <= 1, "not-bits", "coded stream holds a non-bit for " + show(s));
  std::vector<unsigned char> coded = out;
  if (bytes) {
    std::vector<unsigned char> packed, bits;
    ArithEnc::convert2bytes(out, packed);
    REQUIRE(r, packed.size() == (out.size() + 7) / 8, "pack-size", "convert2bytes size for " + show(s));
    ArithDec::convert2bits(packed, bits);
    REQUIRE(r, bits.size() == packed.size() * 8, "unpack-size", "convert2bits size for " + show(s));
    for (size_t i = 0; i < bits.size(); i++) {
      int want = i < out.size() ? out[i] : 0;
      REQUIRE(r, bits[i] == want, "pack", "bit " + std::to_string(i) + " changed by byte packing for " + show(s));
    }
    coded = bits;
  }
  c.dec.initDecoding(coded);
  std::string got;
  for (size_t i = 0; i < s.size(); i++) {
    int v = c.dec.decode(s[i].second);
    r.step();
    if (v != s[i].first) {
      r.fail("symbol", "symbol " + std::to_string(i) + " decodes as " + std::to_string(v) + " in " + show(s));
    }
  }
  if (reset) {
    c.enc.resetCounter();
    c.dec.resetCounter();
  } else {
    c.dec.rescaleCounter();
  }
  r.state(mc::hashBytes(out.data(), out.size(), 77 + out.size()));
}

Seq expand(const std::vector<std::array<int, 3>> &runs) {
  Seq s;
  for (auto &x : runs)
    for (int i = 0; i < x[2]; i++) s.emplace_back(x[0], x[1]);
  return s;
}

// every (symbol, context) sequence of length <= maxLen over the given contexts
mc::Scenario allSequences(const std::string &name, int contexts, int quickLen, int thoroughLen, int base = 0) {
  return {name, [=](mc::Run &r) {
            int maxLen = r.thorough() ? thoroughLen : quickLen;
            int len = r.choose(maxLen + 1);
            int pre = std::min(len, 2);
            Seq s;
            for (int i = 0; i < pre; i++) {
              int v = r.choose(2 * contexts);
              s.emplace_back(v & 1, base + v / 2);
            }
            if (!r.go()) return;
            for (int i = pre; i < len; i++) {
              int v = r.choose(2 * contexts);
              s.emplace_back(v & 1, base + v / 2);
            }
            r.tag(cls(s));
            r.describe([&] { return show(s); });
            for (int bytes = 0; bytes < 2; bytes++) {
              Codec c;
              roundTrip(r, c, s, bytes == 1, true);
            }
          }};
}

const std::vector<int> kLens = {1, 2, 3, 5, 8, 15, 16, 17, 31, 33, 64, 127, 256, 511, 1000};
const std::vector<int> kLongLens = {1, 7, 32, 100, 1023, 1024, 1025, 4096, 20000};

} // namespace

int main(int argc, char **argv) {
  std::vector<mc::Scenario> sc;
  sc.push_back(allSequences("all7ctx", 7, 5, 6));
  sc.push_back(allSequences("one-context", 1, 18, 21, 3));
  sc.push_back(allSequences("two-contexts", 2, 9, 10, 5));
  sc.push_back({"runs", [](mc::Run &r) { // skewed statistics: up to 3 (4) runs of equal symbols
                  int n = 1 + r.choose(3);
                  std::vector<std::array<int, 3>> runs;
                  for (int i = 0; i < n; i++) {
                    int sym = r.choose(2);
                    int ctx = r.choose(2) * 6;
                    int len = r.thorough() || n < 3 ? r.pick(kLens) : r.pick(std::vector<int>{1, 3, 17, 64, 256, 1000});
                    runs.push_back({sym, ctx, len});
                  }
                  if (!r.go()) return;
                  Seq s = expand(runs);
                  r.tag(cls(s));
                  r.describe([&] { return show(s); });
                  Codec c;
                  roundTrip(r, c, s, true, true);
                }});
  sc.push_back({"long-runs", [](mc::Run &r) {
                  int l1 = r.pick(kLongLens), l2 = r.pick(kLongLens), l3 = r.pick(std::vector<int>{1, 100, 5000});
                  int sym = r.choose(2);
                  int ctx = r.choose(7);
                  if (!r.go()) return;
                  Seq s = expand({{sym, ctx, l1}, {1 - sym, ctx, l2}, {sym, ctx, l3}});
                  r.tag(cls(s));
                  r.describe([&] { return show(s); });
                  Codec c;
                  roundTrip(r, c, s, true, true);
                }});
  sc.push_back({"periodic", [](mc::Run &r) { // every pattern of length <= 6 (8) repeated to a long sequence
                  int plen = 1 + r.choose(r.thorough() ? 9 : 7);
                  int pat = r.choose(1 << plen);
                  int ctxMode = r.choose(4);
                  int total = r.pick(std::vector<int>{50, 333, 3000});
                  if (!r.go()) return;
                  Seq s;
                  for (int i = 0; i < total; i++) {
                    int sym = (pat >> (i % plen)) & 1;
                    int ctx = ctxMode == 0 ? 0 : ctxMode == 1 ? i % 7 : ctxMode == 2 ? (i / plen) % 7 : sym * 6;
                    s.emplace_back(sym, ctx);
                  }
                  r.tag(cls(s));
                  r.describe([&] { return "pattern " + std::to_string(pat) + "/" + std::to_string(plen) + " x" + std::to_string(total); });
                  Codec c;
                  roundTrip(r, c, s, true, true);
                }});
  sc.push_back({"sessions", [](mc::Run &r) { // several sequences through one coder, rescaled or reset in between
                  static const std::vector<std::vector<std::array<int, 3>>> menu = {
                      {{1, 0, 1}},
                      {{0, 0, 1}},
                      {{0, 3, 1}, {1, 3, 1}},
                      {{1, 0, 40}, {0, 0, 3}},
                      {{0, 0, 300}, {1, 0, 1}},
                      {{1, 2, 300}},
                      {{0, 2, 5000}, {1, 0, 2}},
                      {{1, 6, 64}, {0, 1, 64}, {1, 6, 1}},
                      {{0, 5, 33}},
                      {}};
                  int n = 2 + r.choose(r.thorough() ? 4 : 3);
                  std::vector<int> ids;
                  std::vector<bool> resets;
                  for (int i = 0; i < n; i++) {
                    ids.push_back(r.choose(static_cast<int>(menu.size())));
                    resets.push_back(r.flip());
                  }
                  if (!r.go()) return;
                  Codec c;
                  std::string d;
                  for (int i = 0; i < n; i++) d += "[" + show(expand(menu[ids[i]])) + (resets[i] ? "]reset " : "]rescale ");
                  r.describe([&] { return d; });
                  for (int i = 0; i < n; i++) {
                    Seq s = expand(menu[ids[i]]);
                    r.tag(cls(s));
                    roundTrip(r, c, s, true, resets[i]);
                    if (resets[i]) { // a reset coder is a new coder
                      Seq probe = expand({{1, 0, 3}, {0, 0, 2}, {1, 4, 5}, {0, 6, 9}});
                      std::vector<unsigned char> in, a, b;
                      std::vector<int> ctx;
                      for (auto &p : probe) {
                        in.push_back(static_cast<unsigned char>(p.first));
                        ctx.push_back(p.second);
                      }
                      ArithEnc fresh, used = c.enc;
                      fresh.encode(in, ctx, a);
                      used.encode(in, ctx, b);
                      REQUIRE(r, a == b, "reset", "a reset coder codes differently from a new one after " + d);
                    }
                  }
                }});
  return mc::runMain(argc, argv, "C10", sc);
}
