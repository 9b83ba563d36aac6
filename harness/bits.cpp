// Bit-level reader/writer: big-endian bit order, values preserved, sizes exact.
#include <sps_io_bits.hpp>
#include <cstring>
#include <sym.hpp>
using namespace sps;
static unsigned bit(const uint8_t* b, unsigned i) { return (b[i / 8] >> (7 - i % 8)) & 1; }
static uint64_t bits(const uint8_t* b, unsigned at, unsigned n) { uint64_t v = 0; for (unsigned i = 0; i < n; i++) v = v << 1 | bit(b, at + i); return v; }
static uint64_t mask(unsigned n) { return n >= 64 ? ~0ull : (1ull << n) - 1; }

extern "C" void sym_main() {
#if MODE == 0  // read: lead bits, then a field of any width 1..32, then the rest
  uint8_t buf[N];
  sym_make(buf, N, "buf");
  BitContext c(buf, N);
  unsigned at = 0;
  unsigned lead = sym_choose(0, 7, "lead");
  CHECK(c.size_bits() == N * 8, "all bits are available before reading");
  if (lead) { CHECK(c.read_bits(lead) == bits(buf, 0, lead), "leading bits read in order"); at += lead; }
  for (int i = 0; i < FIELDS; i++) {
    unsigned w = sym_choose(1, W, "w");
    if (at + w > N * 8) { CHECK(c.acquire_bits(w) != 0, "asking for more bits than remain is refused"); sym_reach("short"); return; }
    CHECK(c.acquire_bits(w) == 0, "bits that remain can be acquired");
    CHECK(c.read_bits(w) == bits(buf, at, w), "field value equals the next bits, most significant first");
    at += w;
    CHECK(c.size_bits() == N * 8 - at, "remaining size drops by exactly the bits read");
  }
  if (at % 8 == 0) {
    unsigned left = N - at / 8;
    uint8_t out[N + 1];
    c.read_bytes(out, left);
    for (unsigned i = 0; i < left; i++) CHECK(out[i] == buf[at / 8 + i], "byte copy continues after the bits");
    CHECK(c.size_bits() == 0, "everything consumed");
    sym_reach("bytes");
  }
  sym_reach("read");
#elif MODE == 1  // write fields, the buffer holds exactly those bits
  uint8_t buf[N];
  sym_make(buf, N, "garbage");  // previous content must not leak into written bits
  BitContext c(buf, N);
  unsigned lead = sym_choose(0, 7, "lead");
  uint64_t lv = sym_u64("leadval");
  if (lead) c.write_bits(lv, lead);
  unsigned at = lead;
  uint64_t val[FIELDS]; unsigned wid[FIELDS];
  for (int i = 0; i < FIELDS; i++) {
    wid[i] = sym_choose(1, W, "w");
    val[i] = sym_u64("val");
    c.write_bits(val[i], wid[i]);
    at += wid[i];
  }
  at = lead;
  CHECK(bits(buf, 0, lead) == (lv & mask(lead)), "leading bits stored");
  for (int i = 0; i < FIELDS; i++) {
    CHECK(bits(buf, at, wid[i]) == (val[i] & mask(wid[i])), "written field is stored as its low bits, most significant first");
    at += wid[i];
  }
  BitContext r(buf, N);
  if (lead) r.read_bits(lead);
  for (int i = 0; i < FIELDS; i++) { if (wid[i] > 32) break; CHECK(r.read_bits(wid[i]) == (val[i] & mask(wid[i])), "what was written is read back"); }
  sym_reach("write");
#elif MODE == 2  // the fixed-width helpers and byte runs
  uint8_t buf[13];
  uint32_t a = sym_u32("a"), b = sym_u32("b"), d = sym_u32("d"), e = sym_u32("e");
  uint8_t raw[3];
  sym_make(raw, 3, "raw");
  BitContext c(buf, 13);
  c.write_int8(a); c.write_int16(b); c.write_int24(d); c.write_int32(e);
  c.write_bytes(raw, 3);
  CHECK(buf[0] == (a & 0xff), "8-bit write");
  CHECK(buf[1] == ((b >> 8) & 0xff) && buf[2] == (b & 0xff), "16-bit write is big endian");
  CHECK(buf[3] == ((d >> 16) & 0xff) && buf[4] == ((d >> 8) & 0xff) && buf[5] == (d & 0xff), "24-bit write is big endian");
  CHECK(buf[6] == (e >> 24) && buf[7] == ((e >> 16) & 0xff) && buf[8] == ((e >> 8) & 0xff) && buf[9] == (e & 0xff), "32-bit write is big endian");
  CHECK(!memcmp(buf + 10, raw, 3), "byte run written verbatim");
  BitContext r(buf, 13);
  CHECK(r.read_int8() == (a & 0xff), "8-bit round trip");
  CHECK(r.read_int16() == (b & 0xffff), "16-bit round trip");
  CHECK(r.read_int24() == (d & 0xffffff), "24-bit round trip");
  CHECK(r.read_int32() == e, "32-bit round trip");
  CHECK(r.pos() == buf + 10, "position points at the next unread byte");
  CHECK(r.size() == 3, "byte size");
  r.skip_read_bytes(1);
  CHECK(r.read_int8() == raw[1], "skip moves by whole bytes");
  CHECK(r.acquire(1) == 0, "one byte remains");
  CHECK(r.acquire(2) != 0, "two bytes do not remain");
  sym_reach("fixed");
#elif MODE == 3  // acquire is exact for every request size
  uint8_t buf[N];
  sym_make(buf, N, "buf");
  BitContext c(buf, N);
  unsigned used = sym_choose(0, N, "used");
  c.skip_read_bytes(used);
  uint32_t n = sym_u32("n");
  CHECK((c.acquire(n) == 0) == (n <= N - used), "acquire succeeds exactly when that many bytes remain");
  uint32_t nb = sym_u32("nb");
  CHECK((c.acquire_bits(nb) == 0) == (nb <= 8 * (N - used)), "acquire_bits succeeds exactly when that many bits remain");
  sym_reach("acquire");
#endif
}
