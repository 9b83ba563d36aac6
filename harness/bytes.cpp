// Byte-level reader/writer over buffers and transports.
#include <sps_io_bytes.hpp>
#include <sps_io_memory.hpp>
#include <sps_io_socket.hpp>
#include "fakeio.hpp"
using namespace sps;
extern "C" void sym_main() {
#if MODE == 0  // buffered reader: any splitting of the transport, any sequence of requests
  uint8_t s[N];
  sym_make(s, N, "stream");
  auto io = std::make_shared<FakeIO>(s, N, SPLITS, ERROR_IO_EOF);
  bool rew = sym_choose(0, 1, "rewindable");
  BytesReader r(io, std::make_shared<AVBuffer>((size_t)CAP, rew));
  unsigned at = 0;
  for (int i = 0; i < OPS; i++) {
    unsigned op = sym_choose(0, 5, "op");
    unsigned need = op == 0 ? 1 : op == 1 ? 2 : op == 2 ? 3 : op == 3 ? 4 : sym_choose(0, CAP + 1, "need");
    error_t e = r.acquire(need);
    if (e != SUCCESS) {
      bool full = rew ? need > CAP : at + need > CAP;
      CHECK(full || at + need > N, "a request is refused only when the buffer or the stream cannot satisfy it");
      CHECK(e == (full ? ERROR_IO_BUFFER_FULL : ERROR_IO_EOF), "the refusal names the cause");
      sym_reach(full ? "full" : "eof");
      sym_observe("refused", e);
      continue;  // nothing is lost: later, smaller requests still see the next bytes
    }
    CHECK(at + need <= N, "bytes that were never sent are not invented");
    CHECK(r.size() >= need, "acquired bytes are available");
    if (op == 0) { CHECK(r.read_int8() == s[at], "8-bit"); at += 1; }
    else if (op == 1) { CHECK(r.read_int16() == (s[at] << 8 | s[at + 1]), "16-bit big endian"); at += 2; }
    else if (op == 2) { CHECK(r.read_int24() == (uint32_t)(s[at] << 16 | s[at + 1] << 8 | s[at + 2]), "24-bit big endian"); at += 3; }
    else if (op == 3) { CHECK(r.read_int32() == ((uint32_t)s[at] << 24 | s[at + 1] << 16 | s[at + 2] << 8 | s[at + 3]), "32-bit big endian"); at += 4; }
    else if (op == 4) {
      uint8_t b[CAP + 1];
      r.read_bytes(b, need);
      CHECK(!memcmp(b, s + at, need), "byte run equals the stream");
      at += need;
    } else { r.skip_bytes(need); at += need; }
    CHECK(r.size() == io->at - at, "buffered size is what was received minus what was consumed");
    if (at < io->at) CHECK(*r.pos() == s[at], "position is the next unread byte");
    sym_observe("at", at);
  }
  sym_reach("end");
#elif MODE == 6  // the same with large buffers, requests and streams
  static uint8_t s[150000]; for (unsigned i = 0; i < sizeof s; i++) s[i] = i * 7 + (i >> 8) * 3;
  static const unsigned CAPS[] = {4096, 65536, 100000}, REQ[] = {1, 255, 256, 4095, 4096, 4097, 65535, 65536, 70000};
  unsigned cap = CAPS[sym_choose(0, 2, "cap")], len = sym_choose(0, 1, "short") ? 66000 : 150000; bool rew = sym_choose(0, 1, "rewindable");
  auto io = std::make_shared<FakeIO>(s, len, 0, ERROR_IO_EOF); io->max_read = sym_choose(0, 1, "slow") ? 1400 : 1 << 30;
  BytesReader r(io, std::make_shared<AVBuffer>((size_t)cap, rew));
  unsigned at = 0; static uint8_t b[70000];
  for (int i = 0; i < 3; i++) {
    unsigned need = REQ[sym_choose(0, 8, "need")], op = i == 1 ? sym_choose(0, 1, "op") : 0;
    error_t e = r.acquire(need);
    if (e != SUCCESS) {
      bool full = rew ? need > cap : at + need > cap;
      CHECK(full || at + need > len, "a request is refused only when the buffer or the stream cannot satisfy it");
      CHECK(e == (full ? ERROR_IO_BUFFER_FULL : ERROR_IO_EOF), "the refusal names the cause"); sym_reach(full ? "full" : "eof"); continue;
    }
    CHECK(at + need <= len && r.size() >= need, "acquired bytes are available"); if (at + need > len) return;
    if (op) r.skip_bytes(need); else { r.read_bytes(b, need); CHECK(!memcmp(b, s + at, need), "byte run equals the stream, however long"); }
    at += need; CHECK(r.size() == io->at - at, "buffered size is what was received minus what was consumed");
    if (at < io->at) CHECK(*r.pos() == s[at], "position is the next unread byte");
  }
  sym_reach("end");
#elif MODE == 1  // writer then reader over the same memory
  uint8_t mem[16];
  memset(mem, 0x5a, 16);
  unsigned cap = sym_choose(0, 10, "cap");
  auto w = BytesWriter::create_writer(mem, cap);
  uint8_t v8 = sym_u8("v8"); uint16_t v16 = sym_u16("v16"); uint32_t v24 = sym_u32("v24"), v32 = sym_u32("v32");
  uint8_t raw[4]; sym_make(raw, 4, "raw");
  unsigned at = 0, ops[3];
  for (int i = 0; i < 3; i++) {
    unsigned op = ops[i] = sym_choose(0, 4, "op");
    unsigned n = op == 4 ? 4 : op + 1;
    CHECK((w->acquire(n) == SUCCESS) == (at + n <= cap), "writer accepts exactly what fits");
    if (at + n > cap) { sym_reach("nofit"); return; }
    if (op == 0) w->write_int8(v8);
    else if (op == 1) w->write_int16(v16);
    else if (op == 2) w->write_int24(v24);
    else if (op == 3) w->write_int32(v32);
    else w->write_bytes(raw, 4);
    at += n;
  }
  for (unsigned i = at; i < 16; i++) CHECK(mem[i] == 0x5a, "nothing is written beyond the values");
  auto r = BytesReader::create_reader(mem, at);
  for (int i = 0; i < 3; i++) {
    unsigned op = ops[i], n = op == 4 ? 4 : op + 1;
    CHECK(r->acquire(n) == SUCCESS, "written bytes can be read");
    if (op == 0) CHECK(r->read_int8() == v8, "8-bit round trip");
    else if (op == 1) CHECK(r->read_int16() == v16, "16-bit round trip");
    else if (op == 2) CHECK(r->read_int24() == (v24 & 0xffffff), "24-bit round trip");
    else if (op == 3) CHECK(r->read_int32() == v32, "32-bit round trip");
    else { uint8_t b[4]; r->read_bytes(b, 4); CHECK(!memcmp(b, raw, 4), "byte run round trip"); }
  }
  CHECK(r->acquire(1) != SUCCESS, "nothing more than was written");
  sym_reach("roundtrip");
#elif MODE == 2  // Socket adapter: read_fully returns exactly the bytes of the stream, whatever the splits
  uint8_t s[N];
  sym_make(s, N, "stream");
  error_t ee = (error_t)sym_choose(1, 3, "enderr") + 1000;
  auto io = std::make_shared<FakeIO>(s, N, N, ee);
  Socket sk(io, "1.2.3.4", 80);
  unsigned at = 0;
  for (int i = 0; i < 2; i++) {
    unsigned n = sym_choose(1, N + 1, "n");
    uint8_t b[N + 2];
    memset(b, 0x5a, sizeof b);
    ssize_t nr = -1;
    error_t e = sk.read_fully(b, n, &nr);
    if (at + n <= N) {
      CHECK(e == SUCCESS, "a full read succeeds when the bytes arrive");
      CHECK(!memcmp(b, s + at, n), "the bytes arrive in order, none lost or repeated");
      CHECK(b[n] == 0x5a, "no more than asked for");
      CHECK(nr == (ssize_t)n, "the count of bytes read is reported");
      at += n;
      sym_reach("full");
    } else { CHECK(e == ee, "the transport's error is reported"); sym_reach("err"); return; }
  }
  CHECK(sk.get_peer_ip() == "1.2.3.4" && sk.get_peer_port() == 80, "peer address");
#elif MODE == 3  // in-memory transport: lines
  char s[N];
  sym_make(s, N, "text");
  MemoryReaderWriter m(s, N);
  unsigned at = 0, lines = 0;
  while (at < N) {
    unsigned e = at;
    while (e < N && s[e] != '\n') e++;
    std::string l;
    CHECK(m.read_line(l) == SUCCESS, "a line is returned while text remains");
    CHECK(l.size() == e - at, "a line ends before its newline");
    for (unsigned i = 0; i < l.size() && i < e - at; i++) CHECK(l[i] == s[at + i], "line content");
    CHECK(m.cur_line_num() == (int)++lines, "line number");
    at = e + 1;
  }
  std::string l;
  CHECK(m.read_line(l) == ERROR_IO_EOF, "then end of input");
  sym_reach("lines");
#elif MODE == 4  // in-memory transport: bytes
  char s[N];
  sym_make(s, N, "mem");
  MemoryReaderWriter m(s, N);
  unsigned at = 0;
  for (int i = 0; i < 3; i++) {
    unsigned op = sym_choose(0, 1, "op"), n = sym_choose(1, N + 1, "n");
    char b[N + 2];
    memset(b, 0x5a, sizeof b);
    if (op == 0) {
      size_t nr = 0;
      error_t e = m.read(b, n, nr);
      if (at == N) { CHECK(e == ERROR_IO_EOF, "end of input"); continue; }
      unsigned k = n < N - at ? n : N - at;
      CHECK(e == SUCCESS && nr == k, "a partial read returns what is left");
      CHECK(!memcmp(b, s + at, k) && b[k] == 0x5a, "bytes in order");
      at += k;
      sym_reach("read");
    } else {
      ssize_t nr = 0;
      error_t e = m.read_fully(b, n, &nr);
      if (at + n > N) { CHECK(e == ERROR_IO_EOF, "a full read fails when too little is left"); continue; }
      CHECK(e == SUCCESS && nr == (ssize_t)n && !memcmp(b, s + at, n) && b[n] == 0x5a, "a full read returns the bytes in order");
      at += n;
      sym_reach("fully");
    }
  }
  sym_reach("end");
#elif MODE == 5  // in-memory transport: writes
  char s[N];
  memset(s, 0x5a, N);
  MemoryReaderWriter m(s, N);
  char d[2 * N + 2];
  sym_make(d, 2 * N + 2, "data");
  unsigned a = sym_choose(0, N + 1, "a"), b = sym_choose(0, N + 1, "b");
  CHECK((m.write(d, a) == SUCCESS) == (a <= N), "a write succeeds exactly when it fits");
  if (a > N) return;
  CHECK((m.write(d + a, b) == SUCCESS) == (a + b <= N), "the next write succeeds exactly when it fits");
  if (a + b > N) return;
  CHECK(!memcmp(s, d, a + b), "consecutive writes are laid out one after the other");
  for (unsigned i = a + b; i < N; i++) CHECK(s[i] == 0x5a, "nothing beyond");
  sym_reach("written");
#endif
}
