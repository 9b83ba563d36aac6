// Configuration text to module settings.
#include <sps_root_module.hpp>
#include <sps_host_global_module.hpp>
#include <sps_host_module.hpp>
#include <sps_http_module.hpp>
#include <sps_server_module.hpp>
#include <sps_stream_module.hpp>
#include <sps_upstream_module.hpp>
#include <sps_io_memory.hpp>
#include <cstring>
#include <sym.hpp>
using namespace sps;
static std::string text;
static int nline, noise_at = -1; static std::string noise;
static void line(const std::string& s) { if (nline++ == noise_at) text += noise + "\n"; text += s + "\n"; }
static PIModule root;
// a file of which only the first lines can be read
struct Broken : MemoryReaderWriter {
  int left;
  Broken(char* b, int n, int l) : MemoryReaderWriter(b, n), left(l) {}
  error_t read_line(std::string& l) override { return left-- ? MemoryReaderWriter::read_line(l) : (error_t)ERROR_SOCKET_READ; }
};
static int broken_at = -1;
static error_t load() {
  auto& r = SingleInstance<ModuleFactoryRegister>::get_instance();
  r.reg("root", std::make_shared<RootModuleFactory>());
  r.reg("http", std::make_shared<HttpModuleFactory>());
  r.reg("server", std::make_shared<ServerModuleFactory>());
  r.reg("host", std::make_shared<HostModuleFactory>());
  r.reg("globalhost", std::make_shared<GlobalHostModuleFactory>());
  r.reg("upstream", std::make_shared<UpStreamModuleFactory>());
  root = r.create("root", "", nullptr);
  if (broken_at >= 0) return root->init_conf(std::make_shared<Broken>((char*)text.data(), (int)text.size(), broken_at));
  return root->init_conf(std::make_shared<MemoryReaderWriter>((char*)text.data(), (int)text.size()));
}
extern "C" void sym_main() {
#if MODE == 0
  static const char* SEP[] = {" ", "\t", "   "};
  static const char* END[] = {";", " ;", "; # c", ";\t#c; d {", "; "};
  static const char* NOISE[] = {"", "   \t", "# text", "  #x; y {", "#}", "# a; b", "#"};
  static const char* BAD[] = {"foo", "listen_port 80", "a; b;", "}", "x }", ";", "{", "role", "a b; }", "}}", "x}", "http{", "host { x", "nosuch x {"};
  unsigned bad = sym_choose(0, 1, "bad");
  noise_at = sym_choose(0, 14, "noiseat");
  noise = bad ? BAD[sym_choose(0, 13, "badkind")] : NOISE[sym_choose(0, 6, "noise")];
  if (bad) sym_exit_ok(1);
  unsigned style = sym_choose(0, 4, "style");
  std::string e = END[style], s = SEP[style % 3];
  std::string v = "ab";
#if VALUE
  char c0 = (char)sym_range('!', '~', "v0"), c1 = (char)sym_range('!', '~', "v1");
  for (char c : {c0, c1}) sym_assume(c != '#' && c != ';' && c != '{' && c != '}');
  v[0] = c0; v[1] = c1;
#endif
  unsigned open = sym_choose(0, 1, "tight");
  std::string b = open ? "{" : s + "{", bs = s + "{";
  line("upstream" + s + "u1" + b);            // 0
  line(s + "server" + s + "10.0.0.9:99" + e);
  line("}");
  line("globalhost" + bs);                    // 3
  line("host" + s + "g.com" + b);
  line("pass_proxy" + s + v + e);
  line(s + "}");
  line("}" + std::string(style == 2 ? " # end" : ""));  // 7
  line("http" + bs);
  line("server" + s + "s1" + b);
  line("listen_port" + s + "8081" + e);       // 10
  line("reuse_port on;");
  line("host" + s + "*.a.com" + b);
  line("pass_url" + s + "two" + s + "words" + e);
  static const char* UNKNOWN[] = {"unknown_option", "pass_ur", "pass_urls", "pass", "PASS_PROXY"};
  line(UNKNOWN[style] + s + "x" + e);         // 14
  line("type stream;"); line("role source;"); line("edge_avformat flv;"); line("enabled off;");
  line("}"); line("host b.com {"); line("}"); line("}"); line("}");
  error_t r = load();
  if (bad) { CHECK(r != SUCCESS, "a malformed configuration is refused"); sym_reach("refused"); return; }
  CHECK(r == SUCCESS, "the configuration is accepted");
  if (r != SUCCESS) return;
  auto& http = HttpModule::http_servers;
  CHECK(http.size() == 1 && root->subs["http"].size() == 1 && root->subs["globalhost"].size() == 1 && root->subs["upstream"].size() == 1, "blocks nest as written");
  auto srv = http.front();
  auto sc = std::static_pointer_cast<ServerConfCtx>(srv->conf);
  CHECK(srv->module_name == "s1" && sc->listen_port == 8081 && sc->reuse_port && sc->backlog == 1024 && sc->transport == "tcp" && sc->recv_timeout == (utime_t)-1, "server settings as given, others at their defaults");
  CHECK(srv->host_modules.size() == 3, "a server has its own hosts and the global ones");
  if (srv->host_modules.size() != 3) return;
  auto a = srv->host_modules[0], b2 = srv->host_modules[1], g = srv->host_modules[2];
  CHECK(a->module_name == "*.a.com" && b2->module_name == "b.com" && g->module_name == "g.com", "hosts by name");
  auto ac = std::static_pointer_cast<HostConfCtx>(a->conf), bc = std::static_pointer_cast<HostConfCtx>(b2->conf), gc = std::static_pointer_cast<HostConfCtx>(g->conf);
  CHECK(ac->pass_url == "two words" && ac->type == "stream" && ac->role == "source" && ac->edge_avformat == "flv" && !ac->enabled && ac->pass_proxy == "", "host settings as given");
  CHECK(bc->pass_url == "" && bc->type == "proxy" && bc->role == "edge" && bc->edge_avformat == "-" && bc->enabled && bc->pass_proxy == "", "an empty block keeps the defaults");
  CHECK(gc->pass_proxy == v && gc->enabled && gc->type == "proxy", "values are taken as written");
  std::string un("u1");
  auto u = SingleInstance<UpStreamModules>::get_instance().get(un);
  CHECK(u && u->get_server() == "10.0.0.9:99", "upstreams by name");
  sym_reach("parsed");
#elif MODE == 1  // typed values
  unsigned k = sym_choose(0, 4, "kind");
  if (k == 3) {
    static const char* T[] = {"http {\nserver s;\n}\n", "http {\nserver s {\nhost h;\n}\n}\n"};
    text = T[sym_choose(0, 1, "where")]; sym_exit_ok(1);
    CHECK(load() != SUCCESS, "a block is no option"); sym_reach("refused"); return;
  } else if (k == 4) {
    text = "http {\nserver s {\nlisten_port 9;\nhost h {\nrole source;\n}\n}\n}\n"; broken_at = (int)sym_choose(0, 8, "line"); sym_exit_ok(1);
    CHECK(load() != SUCCESS, "a file that cannot be read to its end is refused"); sym_reach("unreadable"); return;
  } else if (k == 0) {
    unsigned n = sym_choose(1, 5, "digits"); std::string d; int want = 0;
    for (unsigned i = 0; i < n; i++) { char c = (char)sym_range('0', '9', "d"); d += c; want = want * 10 + c - '0'; }
    text = "http {\nserver s {\nbacklog 7;\nlisten_port " + d + ";\n}\n}\n";
    CHECK(load() == SUCCESS, "accepted");
    auto sc = std::static_pointer_cast<ServerConfCtx>(HttpModule::http_servers.front()->conf);
    CHECK(sc->listen_port == want && sc->backlog == 7, "integers");
  } else if (k == 1) {
    static const char* B[] = {"on", "off", "only", "o", "0", "of", "no", "one"};
    unsigned b = sym_choose(0, 7, "b");
    text = std::string("http {\nserver s {\nreuse_port ") + B[b] + ";\n}\n}\n";
    CHECK(load() == SUCCESS, "accepted");
    auto sc = std::static_pointer_cast<ServerConfCtx>(HttpModule::http_servers.front()->conf);
    CHECK(sc->reuse_port == (b == 0), "only on switches on");
  } else {
    unsigned n = sym_choose(1, 3, "digits"); std::string d = "123456789"; utime_t want = 123456789;
    for (unsigned i = 0; i < n; i++) { char c = (char)sym_range('0', '9', "d"); d += c; want = want * 10 + c - '0'; }
    text = "http {\nserver s {\nrecv_timeout " + d + ";\nsend_timeout 5;\n}\n}\n";
    CHECK(load() == SUCCESS, "accepted");
    auto sc = std::static_pointer_cast<ServerConfCtx>(HttpModule::http_servers.front()->conf);
    CHECK(sc->recv_timeout == want && sc->send_timeout == 5, "64-bit integers");
  }
  sym_reach("typed");
#elif MODE == 2  // two blocks, options do not leak
  static const char* O[] = {"pass_proxy", "role", "type", "edge_avformat", "pass_url"};
  unsigned o1 = sym_choose(0, 4, "o1"), o2 = sym_choose(0, 4, "o2"), twice = sym_choose(0, 1, "twice");
  text = std::string("http {\nserver s {\nhost h1 {\n") + O[o1] + " v1;\n" + (twice ? std::string(O[o1]) + " v3;\n" : "") + "}\nhost h2 {\n" + O[o2] + " v2;\n}\n}\nserver t {\nlisten_port 9;\nhost h3 {\n}\n}\n}\n";
  CHECK(load() == SUCCESS, "accepted");
  CHECK(HttpModule::http_servers.size() == 2, "two servers");
  auto s1 = HttpModule::http_servers.front(), s2 = HttpModule::http_servers.back();
  CHECK(s1->host_modules.size() == 2 && s2->host_modules.size() == 1, "each server has its own hosts");
  if (s1->host_modules.size() != 2 || s2->host_modules.size() != 1) return;
  auto val = [&](PHostModule h, unsigned o) { auto c = std::static_pointer_cast<HostConfCtx>(h->conf); return o == 0 ? c->pass_proxy : o == 1 ? c->role : o == 2 ? c->type : o == 3 ? c->edge_avformat : c->pass_url; };
  static const char* D[] = {"", "edge", "proxy", "-", ""};
  for (unsigned o = 0; o < 5; o++) {
    CHECK(val(s1->host_modules[0], o) == (o == o1 ? twice ? "v3" : "v1" : D[o]), "the last setting in a block holds");
    CHECK(val(s1->host_modules[1], o) == (o == o2 ? "v2" : D[o]), "an option sets its own block only");
    CHECK(val(s2->host_modules[0], o) == D[o], "and no other block");
  }
  CHECK(std::static_pointer_cast<ServerConfCtx>(s1->conf)->listen_port == 80 && std::static_pointer_cast<ServerConfCtx>(s2->conf)->listen_port == 9, "ports");
  sym_reach("blocks");
#elif MODE == 4  // long values, many blocks, many lines
  static const unsigned LEN[] = {1, 64, 256, 1023, 4100}, MANY[] = {1, 17, 34};
  unsigned len = LEN[sym_choose(0, 4, "len")], ns = MANY[len > 300 ? 0 : sym_choose(0, 2, "servers")], nh = MANY[len > 300 && len < 4000 ? 0 : sym_choose(0, 2, "hosts")], pad = sym_choose(0, 1, "pad") * 70;
  auto lng = [&](const char* t) { std::string v(t); v.resize(len + 8, 'k'); return v; };
  text = "upstream " + lng("u") + " {\nserver 10.0.0.9:99;\n}\nhttp {\n";
  for (unsigned i = 0; i < ns; i++) {
    text += "server s" + std::to_string(i) + " {\n" + std::string(pad, ' ') + "listen_port" + std::string(pad + 1, i % 2 ? ' ' : '\t') + std::to_string(1000 + i) + "; " + std::string(pad, '#') + "\n";
    for (unsigned h = 0; h < (i == ns - 1 ? nh : 1); h++) {
      std::string n = std::to_string(i) + "-" + std::to_string(h);
      text += "host " + lng((n + ".h").c_str()) + " {\n" + std::string(pad, '\n') + "pass_url " + lng((n + "p").c_str()) + ";\nrole source;\n}\n";
    }
    text += "}\n";
  }
  text += "}\n";
  CHECK(load() == SUCCESS, "accepted");
  auto& http = HttpModule::http_servers;
  CHECK(http.size() == ns, "every server block is there"); if (http.size() != ns) return;
  unsigned i = 0;
  for (auto& srv : http) {
    auto sc = std::static_pointer_cast<ServerConfCtx>(srv->conf); unsigned want = i == ns - 1 ? nh : 1;
    CHECK(srv->module_name == "s" + std::to_string(i) && sc->listen_port == (int)(1000 + i) && srv->host_modules.size() == want, "with its name, port and hosts"); if (srv->host_modules.size() != want) return;
    for (unsigned h = 0; h < want; h++) {
      std::string n = std::to_string(i) + "-" + std::to_string(h); auto m = srv->host_modules[h]; auto c = std::static_pointer_cast<HostConfCtx>(m->conf);
      CHECK(m->module_name == lng((n + ".h").c_str()) && c->pass_url == lng((n + "p").c_str()) && c->role == "source" && c->type == "proxy", "each host is as written, however long");
    }
    i++;
  }
  std::string un = lng("u"); auto u = SingleInstance<UpStreamModules>::get_instance().get(un); CHECK(u && u->get_server() == "10.0.0.9:99", "upstreams by name");
  sym_reach("many");
#else  // arbitrary bytes
  sym_exit_ok(1);
  unsigned n = sym_choose(0, NBYTES, "n"); char b[NBYTES + 1];
  sym_make(b, n, "bytes");
  text = std::string(b, n);
  if (sym_choose(0, 1, "inside")) text = "http {\nserver s {\n" + text + "\n}\n}\n";
  error_t r = load();
  sym_reach(r == SUCCESS ? "ok" : "refused");
#endif
}
