// Starting the configured HTTP server on the stand-in network.
#pragma once
#define NET_SERVER 1
#include <sps_root_module.hpp>
#include <sps_host_global_module.hpp>
#include <sps_host_module.hpp>
#include <sps_http_module.hpp>
#include <sps_server_module.hpp>
#include <sps_upstream_module.hpp>
#include <sps_io_url_http.hpp>
#include <sps_io_memory.hpp>
#include "fakenet.hpp"
#include "httpmsg.hpp"
using namespace sps;
static PIModule root;
static error_t start(const char* conf_text) {
  auto& r = SingleInstance<ModuleFactoryRegister>::get_instance();
  r.reg("root", std::make_shared<RootModuleFactory>());
  r.reg("http", std::make_shared<HttpModuleFactory>());
  r.reg("server", std::make_shared<ServerModuleFactory>());
  r.reg("host", std::make_shared<HostModuleFactory>());
  r.reg("globalhost", std::make_shared<GlobalHostModuleFactory>());
  r.reg("upstream", std::make_shared<UpStreamModuleFactory>());
  SingleInstance<UrlProtocol>::get_instance().reg(std::make_shared<HttpURLProtocolFactory>());
  root = r.create("root", "", nullptr);
  error_t e = root->init_conf(std::make_shared<MemoryReaderWriter>((char*)conf_text, (int)strlen(conf_text)));
  CHECK(e == SUCCESS, "the configuration is accepted");
  return root->install();
}
