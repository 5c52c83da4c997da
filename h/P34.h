#ifndef P34_H
#define P34_H
#include <vector>
#include <cstdint>
namespace p34 {
using Fn = void (*)(int, const void*, int, std::vector<int64_t>*, const char**);
struct Entry { const char* cfg; int part; Fn fn; };
inline std::vector<Entry>& table() { static std::vector<Entry> t; return t; }
}
#endif
