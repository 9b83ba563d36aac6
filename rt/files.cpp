#include <cstddef>
// the one file of the stand-in file system (rt/include/vstream.h)
#include "include/vstream.h"
namespace std { _VFile& _vfile() { static _VFile f; return f; } }
extern "C" {
void sym_file_put(const char* name, const void* p, size_t n) { auto& f = std::_vfile(); f.exists = true; size_t k = 0; for (; name[k]; k++) f.name[k] = name[k]; f.name[k] = 0; f.data.assign((const char*)p, n); }
void sym_file_none(const char* name) { auto& f = std::_vfile(); f.exists = false; size_t k = 0; for (; name[k]; k++) f.name[k] = name[k]; f.name[k] = 0; f.data.clear(); }
long sym_file_get(const char* name, void* p, size_t cap) { auto& f = std::_vfile(); if (!f.exists) return -1; size_t k = f.data.size() < cap ? f.data.size() : cap; for (size_t i = 0; i < k; i++) ((char*)p)[i] = f.data[i]; return (long)f.data.size(); }
}
