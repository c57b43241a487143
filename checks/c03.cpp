// C03: an experience written as a stream and read back is the same experience.
#include "streams.h"
#include <IOHaptics/include/IOStream.h>
using namespace doc;
using namespace gen;
using haptics::io::IOStream;

namespace {
void compare(mc::Run &r, const Doc &want, Doc got, const char *key, const Doc &d, int pd) {
  got.syncs.clear();
  mihs::forgetIds(want, got);
  const auto why = difference(want, got, mihs::TOL);
  REQUIRE(r, why.empty(), key, why + " with packets of " + std::to_string(pd) + " in " + dump(d));
}
void roundTrip(mc::Run &r, const Doc &d, int pd, bool file) {
  r.describe([&] { return "packets of " + std::to_string(pd) + ": " + dump(d); });
  auto want = mihs::carried(d);
  want.syncs.clear();
  auto h = toHaptics(d);
  mihs::Units units;
  const bool written = IOStream::writeUnits(h, units, pd);
  if (!written && streams::mayRefuse) return r.step();
  REQUIRE(r, written, "write", "writing failed: " + dump(d));
  r.step();
  const auto after = difference(d, fromHaptics(h));
  REQUIRE(r, after.empty(), "document-changed", after + " after writing " + dump(d));
  uint64_t hash = 0;
  for (auto &u : units) {
    std::string s;
    for (bool b : u) s += b ? '1' : '0';
    hash = mc::hashBytes(s.data(), s.size(), hash + 1);
  }
  r.state(hash);
  { // as the format is written down
    mihs::Receiver rec;
    try {
      for (auto &u : units) rec.apply(mihs::parse(u));
    } catch (const mihs::Broken &b) {
      r.fail("not-a-stream", std::string(b.what()) + " in the stream of " + dump(d));
    }
    compare(r, want, rec.result(), "stream-differs", d, pd);
  }
  { // as the software reads it
    auto reader = IOStream::initializeStream();
    IOStream::CRC crc;
    for (auto &u : units) {
      REQUIRE(r, IOStream::readMIHSUnit(u, reader, crc), "read", "a unit is refused, packets of " + std::to_string(pd) + ", in " + dump(d));
      r.step();
    }
    reader.haptic.setTimescale(reader.timescale);
    compare(r, want, fromHaptics(reader.haptic), "differs", d, pd);
  }
  if (file) {
    const auto path = mc::scratch() + "/c03.mihs";
    REQUIRE(r, IOStream::writeFile(h, path, pd), "write-file", "writing failed: " + dump(d));
    haptics::types::Haptics back;
    REQUIRE(r, IOStream::readFile(path, back), "read-file", "reading failed: " + dump(d));
    r.step(2);
    compare(r, want, fromHaptics(back), "file-differs", d, pd);
  }
}
} // namespace

int main(int argc, char **argv) {
  std::cerr.setstate(std::ios::failbit);
  streams::visit = roundTrip;
  return mc::runMain(argc, argv, "C03", streams::scenarios());
}
