// Environment stand-ins used both in the engine and in native replay:
// logging (dropped), state-threads conditions, clock.
#include <cstdarg>
#include <cstdint>
#include <cstdlib>
#include <sps_log.hpp>
#include "sym.hpp"
namespace sps {
class NullLog : public ILog { public: void printf(LOG_LEVEL, const char*, ...) override {} };
static NullLog nulllog;
__attribute__((weak)) ILog* log = &nulllog;
__attribute__((weak)) int get_context_id() { return 0; }
}
struct _st_cond;
extern "C" {
__attribute__((weak)) void env_on_wait(void*) {}
__attribute__((weak)) int st_cond_timedwait(_st_cond* c, unsigned long long) { env_on_wait(c); return 0; }
__attribute__((weak)) int st_cond_wait(_st_cond* c) { env_on_wait(c); return 0; }
__attribute__((weak)) _st_cond* st_cond_new(void) { return (_st_cond*)malloc(8); }
__attribute__((weak)) int st_cond_destroy(_st_cond* c) { free(c); return 0; }
__attribute__((weak)) int st_cond_broadcast(_st_cond*) { return 0; }
__attribute__((weak)) int st_cond_signal(_st_cond*) { return 0; }
__attribute__((weak)) int st_sleep(int) { return 0; }
__attribute__((weak)) int st_usleep(unsigned long long) { return 0; }
__attribute__((weak)) void* st_thread_self(void) { return nullptr; }
__attribute__((weak)) unsigned long long st_utime(void) { return 1600000000000000ull; }
}
