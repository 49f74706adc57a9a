#ifndef CAMP_STUB_CAMP
#define CAMP_STUB_CAMP
#include <cstddef>
namespace camp { template <class... T> inline void sink(T...) {} }
#define CAMP_EXPAND(...) ((void)(int[]){0, ((void)(__VA_ARGS__), 0)...})
#endif
