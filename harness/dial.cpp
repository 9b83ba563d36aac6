// Connections the server makes itself: TCP, and TLS over TCP.
#include <cstring>
#include <string>
#include <sps_io_socket.hpp>
#include "fakenet.hpp"
#include "tlsnet.hpp"
using namespace sps;
static void run() {
  bool tls = sym_choose(0, 1, "tls"); unsigned fail = sym_choose(0, 4, "fail");  // none, refused, cut, silent, broken
  uint8_t d[3]; sym_make(d, 3, "data"); std::string data((char*)d, 3), in;
  net_refuse = fail == 1; net_dial_tm = 4321;
  if (tls) { in = rec('H', fail == 4 ? "2x" : "2a") + rec('H', "2b"); if (fail != 2 && fail != 3) in += rec('H', "4") + rec('D', data.substr(0, 2)) + rec('D', data.substr(2)); } else in = fail == 2 || fail == 3 ? "" : data;
  FakeIO* io = net_out[net_outs++] = new FakeIO((const uint8_t*)in.data(), in.size(), tls ? 1 : 2, fail == 3 ? ERROR_SOCKET_TIMEOUT : ERROR_SOCKET_CLOSED, 200);
  PSocket s = SingleInstance<ClientSocketFactory>::get_instance().create_ss(tls ? Transport::HTTPS : Transport::TCP, "10.0.0.7", 443, 4321);
  bool ok = fail == 0 || (!tls && fail != 1);
  CHECK(!!s == ok, "a connection exactly if both ends can");
  CHECK(net_dials == (fail != 1) && (fail == 1 || (net_ip[0] == (10u | 7u << 24) && net_port[0] == 443)), "to where it was asked");
  if (!s) { CHECK(net_closed == net_n, "one that fails is closed"); sym_reach("failed"); return; }
  CHECK(s->get_peer_ip() == "10.0.0.7" && s->get_peer_port() == 443, "it knows its peer");
  std::string hs = tls ? rec('H', "110.0.0.7") + rec('H', "3a") + rec('H', "3b") : "";
  if (!tls) { s->set_recv_timeout(4321); s->set_send_timeout(4321); }
  CHECK(s->write((void*)"ping", 4) == SUCCESS, "it can be written");
  CHECK(std::string((char*)io->out, io->nout) == hs + (tls ? rec('D', "pin") + rec('D', "g") : std::string("ping")), "and the peer gets it");
  std::string got; error_t e;
  for (;;) { char b[4]; size_t n = 0; if ((e = s->read(b, 4, n)) != SUCCESS) break; CHECK(n > 0 && n <= 4, "some bytes"); got.append(b, n); if (got.size() > 3) break; }
  CHECK(got == (fail == 2 || fail == 3 ? "" : data), "what the peer sent, in order, once");
  CHECK(e == (fail == 3 ? ERROR_SOCKET_TIMEOUT : ERROR_SOCKET_CLOSED), "then its end");
  sym_reach(tls ? "tls" : "tcp");
}
extern "C" void sym_main() {
  run();
  CHECK(net_closed == net_n, "closed with the last user");
  CHECK(!nssl && !nctx && !nbio, "nothing is left");
}
