// Building MPEG transport streams.
#pragma once
#include <cstring>
#include <string>
enum { VPID = 0x101, APID = 0x102, MPID = 0x1000 };
// one packet: header, adaptation stuffing as needed, payload (at most 184 bytes)
static std::string ts_packet(int pid, bool start, int cc, const std::string& payload, const std::string& af = std::string()) {
  std::string s(4, 0);
  s[0] = 0x47; s[1] = (char)((start ? 0x40 : 0) | pid >> 8); s[2] = (char)pid;
  size_t room = 184 - payload.size();
  int afc = payload.empty() ? 2 : room ? 3 : 1;
  s[3] = (char)(afc << 4 | (cc & 15));
  if (room) {
    std::string a(room, (char)0xff);
    a[0] = (char)(room - 1);
    if (room > 1) a[1] = 0;
    for (size_t i = 0; i < af.size() && i + 1 < room; i++) a[1 + i] = af[i];
    s += a;
  }
  return s + payload;
}
static std::string ts_crc("\x11\x22\x33\x44", 4);  // never checked by the code
static std::string ts_section(int table, int id, const std::string& body) {
  int len = 5 + (int)body.size() + 4;
  std::string s(8, 0);
  s[0] = (char)table; s[1] = (char)(0xb0 | len >> 8); s[2] = (char)len; s[3] = (char)(id >> 8); s[4] = (char)id; s[5] = (char)0xc1;
  return s + body + ts_crc;
}
// a packet carrying one section, padded with 0xff as usual
static std::string ts_psi(int pid, int cc, const std::string& section, unsigned pointer = 0) {
  std::string p = std::string(1, (char)pointer) + std::string(pointer, (char)0xff) + section;
  p += std::string(184 - p.size(), (char)0xff);
  return ts_packet(pid, true, cc, p);
}
static std::string ts_w16(int v) { std::string s(2, 0); s[0] = (char)(v >> 8); s[1] = (char)v; return s; }
static std::string ts_es(int type, int pid, const std::string& desc = std::string()) { return std::string(1, (char)type) + ts_w16(0xe000 | pid) + ts_w16(0xf000 | (int)desc.size()) + desc; }
static std::string ts_stamp(int tag, uint64_t t) {
  std::string s(5, 0);
  s[0] = (char)(tag << 4 | (t >> 30 & 7) << 1 | 1); s[1] = (char)(t >> 22); s[2] = (char)(t >> 14 | 1); s[3] = (char)(t >> 7); s[4] = (char)(t << 1 | 1);
  return s;
}
// flags: 0 no times, 2 pts, 3 both; more: the optional fields, as flag byte and bytes
static std::string ts_pes(int stream, int flags, uint64_t pts, uint64_t dts, unsigned stuff, bool sized, const std::string& data, int mflags = 0, const std::string& more = std::string()) {
  std::string h = flags == 3 ? ts_stamp(3, pts) + ts_stamp(1, dts) : flags == 2 ? ts_stamp(2, pts) : std::string();
  h += more + std::string(stuff, (char)0xff);
  std::string s("\0\0\1", 3);
  s += (char)stream;
  s += ts_w16(sized ? (int)(3 + h.size() + data.size()) : 0);
  s += (char)0x80; s += (char)(flags << 6 | mflags); s += (char)h.size();
  return s + h + data;
}
