// an in-memory transport that hands out at most `piece` bytes per read
#pragma once
#include <sps_io.hpp>
#include <cstdio>
#include <cstring>
#include <string>
namespace sps {
class MemIO : public IReaderWriter {
 public:
  std::string in, out; size_t at = 0, piece = 1 << 20; error_t end = ERROR_SOCKET_CLOSED;
  explicit MemIO(const std::string& s, size_t p = 1 << 20) : in(s), piece(p) {}
  void set_recv_timeout(utime_t) override {}
  utime_t get_recv_timeout() override { return 0; }
  void set_send_timeout(utime_t) override {}
  utime_t get_send_timeout() override { return 0; }
  error_t read(void* b, size_t n, size_t& nr) override {
    nr = 0;
    if (n == 0) return ERROR_IO_BUFFER_FULL;
    if (at == in.size()) return end;
    nr = std::min(std::min(n, piece), in.size() - at);
    memcpy(b, in.data() + at, nr); at += nr;
    return SUCCESS;
  }
  error_t read_fully(void* b, size_t n, ssize_t* p) override {
    size_t d = 0, k;
    while (d < n) { error_t e = read((char*)b + d, n - d, k); if (e != SUCCESS) return e; d += k; }
    if (p) *p = n;
    return SUCCESS;
  }
  error_t write(void* b, size_t n) override { out.append((char*)b, n); return SUCCESS; }
};
}
static int bad;
#define OK(c) do { if (!(c)) { fprintf(stderr, "wrong: %s (line %d)\n", #c, __LINE__); bad = 1; } } while (0)
