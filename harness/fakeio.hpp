// Transport stand-in: serves a byte string in pieces of any size (chosen by the
// solver at every read for the first `choices` reads), then a chosen end-of-stream
// code; records everything written, optionally failing at a chosen write.
#pragma once
#include <sps_io.hpp>
#include <cstring>
#include <string>
#include <sym.hpp>
namespace sps {
class FakeIO : public IReaderWriter {
 public:
  const uint8_t* data; size_t len; size_t at = 0; int choices; error_t end_err; int reads = 0;
  uint8_t* out; size_t cap; size_t nout = 0; int writes = 0; int fail_at = -1; error_t fail_err = 0; bool short_reads_only = false;
  size_t max_read = 1 << 20; size_t barrier = 0;  // no read crosses the barrier
  FakeIO(const uint8_t* d, size_t n, int ch, error_t ee = ERROR_SOCKET_CLOSED, size_t outcap = 0)
      : data(d), len(n), choices(ch), end_err(ee), cap(outcap) { out = outcap ? new uint8_t[outcap] : nullptr; }
  // one way of splitting: none, byte by byte, or at any one place
  void split(size_t base = 0) {
    unsigned m = sym_choose(0, 2, "splitmode");
    if (m == 1) max_read = 1;
    else if (m == 2 && len > base + 1) barrier = base + sym_choose(1, (unsigned)(len - base - 1), "barrier");
  }
  ~FakeIO() override { delete[] out; }
  void set_recv_timeout(utime_t) override {}
  utime_t get_recv_timeout() override { return 0; }
  void set_send_timeout(utime_t) override {}
  utime_t get_send_timeout() override { return 0; }
  error_t read(void* b, size_t n, size_t& nread) override {
    reads++;
    if (n == 0) return ERROR_IO_BUFFER_FULL;  // what the TCP transport answers
    size_t left = len - at;
    if (left == 0) { nread = 0; return end_err; }
    size_t k = n < left ? n : left;
    if (k > max_read) k = max_read;
    if (at < barrier && at + k > barrier) k = barrier - at;
    if (choices > 0 && k > 1) { choices--; k = sym_choose(1, (unsigned)k, "split"); }
    memcpy(b, data + at, k);
    at += k;
    nread = k;
    return SUCCESS;
  }
  error_t read_fully(void* b, size_t n, ssize_t* nr = nullptr) override {
    size_t done = 0;
    while (done < n) { size_t k = 0; error_t e = read((uint8_t*)b + done, n - done, k); if (e) return e; done += k; }
    if (nr) *nr = (ssize_t)n;
    return SUCCESS;
  }
  error_t write(void* b, size_t n) override {
    if (n == 0) return ERROR_SOCKET_WRITE;  // what the TCP transport answers
    if (writes++ == fail_at) return fail_err;
    CHECK(nout + n <= cap, "no more output than the harness expects");
    memcpy(out + nout, b, n);
    nout += n;
    return SUCCESS;
  }
};
}
