// C11: the wavelet block codec is lossless and blocks are independent of each other.
#include "mc.h"
#include <Spiht/include/Spiht_Dec.h>
#include <Spiht/include/Spiht_Enc.h>
#include <sstream>

using haptics::spiht::Spiht_Dec;
using haptics::spiht::Spiht_Enc;
using Block = std::vector<int>;

namespace {

std::string show(const Block &b, int bits, double scalar) {
  std::ostringstream o;
  o << "length " << b.size() << " bits " << bits << " scalar " << scalar << " nonzero";
  int n = 0;
  for (size_t i = 0; i < b.size(); i++)
    if (b[i] != 0 && n++ < 24) o << " " << i << ":" << b[i];
  return o.str();
}

double quantised(double s) { // the scale factor's 8-bit code: mode bit and 7 bits, rounded down
  if (s < 1) return std::floor(s * 128) / 128;
  return 1 + std::floor((s - 1) * 8) / 8;
}

void check(mc::Run &r, Spiht_Enc &enc, Spiht_Dec &dec, const Block &b, int bits, double scalar,
           std::vector<unsigned char> *bytes = nullptr) {
  Block in = b;
  std::vector<unsigned char> out;
  enc.encodeEffect(in, bits, scalar, out);
  r.step(2);
  REQUIRE(r, in == b, "input-changed", "encoding changed the block: " + show(b, bits, scalar));
  auto stream = out;
  Block got;
  double wavmax = -1;
  int n = -1;
  dec.decodeEffect(stream, got, static_cast<int>(b.size()), wavmax, n);
  REQUIRE(r, stream == out, "stream-changed", "decoding changed the stream: " + show(b, bits, scalar));
  REQUIRE(r, got.size() == b.size(), "length", "decoded length " + std::to_string(got.size()) + ": " + show(b, bits, scalar));
  for (size_t i = 0; i < b.size(); i++) {
    REQUIRE(r, got[i] == b[i], "coefficient",
            "coefficient " + std::to_string(i) + " is " + std::to_string(got[i]) + ", not " + std::to_string(b[i]) + ": " +
                show(b, bits, scalar));
  }
  bool zero = true;
  for (int v : b) zero = zero && v == 0;
  if (!zero && bits > 0) {
    REQUIRE(r, n == bits, "bits", "bit depth comes back as " + std::to_string(n) + ": " + show(b, bits, scalar));
    REQUIRE(r, wavmax == quantised(scalar), "scalar", "scale factor comes back as " + std::to_string(wavmax) + ": " + show(b, bits, scalar));
  }
  r.state(mc::hashBytes(out.data(), out.size(), b.size()));
  if (bytes != nullptr) *bytes = out;
}

void fresh(mc::Run &r, const Block &b, int bits, double scalar) {
  Spiht_Enc e;
  Spiht_Dec d;
  check(r, e, d, b, bits, scalar);
}

const std::vector<int> kBits = {1, 2, 3, 4, 5, 7, 8, 11, 14, 15};
const std::vector<int> kLengths = {8, 16, 32, 64, 128, 256, 512, 1024};

std::vector<int> valuesFor(int bits) {
  int top = (1 << (bits + 1)) - 1;
  std::vector<int> v = {1, -1, top, -top, 1 << bits, -(1 << bits), (1 << bits) - 1, top - 1};
  return v;
}

Block menuBlock(int id, int &bits, double &scalar) {
  static const int len[] = {8, 16, 32, 64, 32, 16, 128, 8, 64, 32};
  Block b(static_cast<size_t>(len[id]), 0);
  bits = 1 + (id * 5) % 15;
  scalar = id % 2 == 0 ? 0.125 * (id % 7 + 1) : 1 + 0.5 * id;
  int top = (1 << (bits + 1)) - 1;
  for (size_t i = 0; i < b.size(); i++) {
    if (id == 7) break; // silent block
    int v = static_cast<int>((i * 2654435761U + static_cast<unsigned>(id) * 40503U) >> 9) % (top + 1);
    if ((i * 7 + static_cast<size_t>(id)) % 3 == 0) b[i] = (i & 1U) ? -v : v;
  }
  return b;
}

} // namespace

int main(int argc, char **argv) {
  std::vector<mc::Scenario> sc;
  sc.push_back({"dense8-three-values", [](mc::Run &r) { // every block of 8 over {0,1,-1}
                  int a = r.choose(81);
                  int bits = r.pick(std::vector<int>{1, 4, 15});
                  if (!r.go()) return;
                  for (int c = 0; c < 81; c++) {
                    Block b(8);
                    int x = a + 81 * c;
                    for (auto &v : b) {
                      v = x % 3 == 2 ? -1 : x % 3;
                      x /= 3;
                    }
                    r.describe([&] { return show(b, bits, 0.5); });
                    fresh(r, b, bits, 0.5);
                  }
                }});
  sc.push_back({"dense8-mixed-magnitudes", [](mc::Run &r) { // every block of 8 over {0,1,-2,3}
                  static const int al[] = {0, 1, -2, 3};
                  int a = r.choose(256);
                  if (!r.go()) return;
                  for (int c = 0; c < 256; c++) {
                    Block b(8);
                    int x = a + 256 * c;
                    for (auto &v : b) {
                      v = al[x & 3];
                      x >>= 2;
                    }
                    fresh(r, b, 1, 1.5);
                  }
                }});
  sc.push_back({"dense16", [](mc::Run &r) { // every zero/non-zero pattern of 16
                  int hi = r.choose(256);
                  int mode = r.choose(r.thorough() ? 4 : 2);
                  if (!r.go()) return;
                  for (int lo = 0; lo < 256; lo++) {
                    Block b(16);
                    int x = hi * 256 + lo;
                    for (int i = 0; i < 16; i++) {
                      int v = (x >> i) & 1;
                      if (mode == 1) v *= (i & 1) != 0 ? -7 : 3;
                      if (mode == 2) v *= i < 8 ? 1 : -6;
                      if (mode == 3) v *= (i * 5) % 8 - 4 == 0 ? 1 : (i * 5) % 8 - 4;
                      b[static_cast<size_t>(i)] = v;
                    }
                    fresh(r, b, 2, 0.25);
                  }
                }});
  sc.push_back({"single", [](mc::Run &r) { // one coefficient, anywhere, any depth
                  int len = r.pick(kLengths);
                  int bits = 1 + r.choose(15);
                  if (!r.go()) return;
                  for (int pos = 0; pos < len; pos += (len > 256 && pos > 64 && pos < len - 8 && !r.thorough()) ? 7 : 1) {
                    for (int v : valuesFor(bits)) {
                      if (v == 0) continue;
                      if (len > 256 && v != 1 && v != valuesFor(bits)[3] && !r.thorough()) continue;
                      Block b(static_cast<size_t>(len), 0);
                      b[static_cast<size_t>(pos)] = v;
                      r.describe([&] { return show(b, bits, 3.25); });
                      fresh(r, b, bits, 3.25);
                    }
                  }
                }});
  sc.push_back({"pairs", [](mc::Run &r) { // every pair of positions
                  int len = r.pick(r.thorough() ? std::vector<int>{16, 32, 64, 128} : std::vector<int>{16, 32, 64});
                  int bits = r.pick(std::vector<int>{1, 3, 6, 15});
                  int p = r.choose(len);
                  if (!r.go()) return;
                  auto vals = valuesFor(bits);
                  for (int q = p + 1; q < len; q++) {
                    for (int a = 0; a < 4; a++) {
                      for (int c = 0; c < (r.thorough() ? 6 : 4); c++) {
                        Block b(static_cast<size_t>(len), 0);
                        b[static_cast<size_t>(p)] = vals[static_cast<size_t>(a)];
                        b[static_cast<size_t>(q)] = vals[static_cast<size_t>(c)];
                        fresh(r, b, bits, 0.75);
                      }
                    }
                  }
                }});
  sc.push_back({"triples", [](mc::Run &r) {
                  int len = r.thorough() ? 64 : 32;
                  int p = r.choose(len), q = r.choose(len);
                  if (p >= q) q = p; // keep the tree regular
                  if (!r.go()) return;
                  if (p >= q) return;
                  for (int s = q + 1; s < len; s++) {
                    for (int m = 0; m < 8; m++) {
                      Block b(static_cast<size_t>(len), 0);
                      b[static_cast<size_t>(p)] = (m & 1) != 0 ? 5 : -1;
                      b[static_cast<size_t>(q)] = (m & 2) != 0 ? -7 : 2;
                      b[static_cast<size_t>(s)] = (m & 4) != 0 ? 1 : -4;
                      fresh(r, b, 2, 0.75);
                    }
                  }
                }});
  sc.push_back({"shapes", [](mc::Run &r) { // full blocks: constant, ramps, alternating, two-level, decaying
                  int len = r.pick(kLengths);
                  int bits = 1 + r.choose(15);
                  int shape = r.choose(8);
                  if (!r.go()) return;
                  int top = (1 << (bits + 1)) - 1;
                  for (int k = 0; k < 8; k++) {
                    Block b(static_cast<size_t>(len), 0);
                    for (int i = 0; i < len; i++) {
                      int v = 0;
                      switch (shape) {
                      case 0: v = top - k; break;
                      case 1: v = (i * (k + 1)) % (top + 1); break;
                      case 2: v = (i & 1) != 0 ? -(top >> k) : (top >> k); break;
                      case 3: v = i < (len >> k) ? top : 1; break;
                      case 4: v = top >> std::min(20, (i * (k + 1)) / 8); break;
                      case 5: v = i >= len - (len >> k) ? -top : 0; break;
                      case 6: v = static_cast<int>((static_cast<unsigned>(i) * 2654435761U + static_cast<unsigned>(k) * 97U) >> 7) % (2 * top + 1) - top; break;
                      default: v = i % (k + 2) == 0 ? (1 << (i % (bits + 1))) : 0; break;
                      }
                      b[static_cast<size_t>(i)] = std::max(-top, std::min(top, v));
                    }
                    r.describe([&] { return show(b, bits, 2); });
                    fresh(r, b, bits, 2);
                  }
                }});
  sc.push_back({"scale-factors", [](mc::Run &r) { // every code of the scale factor, and values between codes
                  int code = r.choose(256);
                  int bits = 1 + r.choose(15);
                  if (!r.go()) return;
                  double base = code < 128 ? code / 128.0 : 1 + (code - 128) / 8.0;
                  double next = code < 128 ? 1 / 128.0 : 1 / 8.0;
                  for (double f : {0.0, 0.5, 0.96875}) {
                    Block b(16, 0);
                    b[3] = 1;
                    b[12] = -2;
                    if (bits >= 1) fresh(r, b, bits, base + f * next);
                  }
                }});
  sc.push_back({"independence", [](mc::Run &r) { // one encoder and one decoder used for a history of blocks
                  int n = 2 + r.choose(r.thorough() ? 4 : 3);
                  std::vector<int> ids;
                  for (int i = 0; i < n; i++) ids.push_back(r.choose(10));
                  if (!r.go()) return;
                  Spiht_Enc e;
                  Spiht_Dec d;
                  std::string hist;
                  for (int id : ids) hist += std::to_string(id) + " ";
                  r.describe([&] { return "menu blocks " + hist + "through one coder"; });
                  for (int id : ids) {
                    int bits = 0;
                    double scalar = 0;
                    Block b = menuBlock(id, bits, scalar);
                    std::vector<unsigned char> shared, alone;
                    check(r, e, d, b, bits, scalar, &shared);
                    Spiht_Enc e2;
                    Spiht_Dec d2;
                    check(r, e2, d2, b, bits, scalar, &alone);
                    REQUIRE(r, shared == alone, "history", "block " + std::to_string(id) + " is coded differently after " + hist);
                  }
                }});
  return mc::runMain(argc, argv, "C11", sc);
}
