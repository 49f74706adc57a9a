// Instantiates the header-only templates so that their members are type-checked and can be analysed.
#include "umpire/Umpire.hpp"
#include "umpire/Allocator.hpp"
#include "umpire/ResourceManager.hpp"
#include "umpire/TypedAllocator.hpp"
#include "umpire/strategy/AlignedAllocator.hpp"
#include "umpire/strategy/DynamicPoolList.hpp"
#include "umpire/strategy/FixedPool.hpp"
#include "umpire/strategy/MixedPool.hpp"
#include "umpire/strategy/MonotonicAllocationStrategy.hpp"
#include "umpire/strategy/NamedAllocationStrategy.hpp"
#include "umpire/strategy/NamingShim.hpp"
#include "umpire/strategy/QuickPool.hpp"
#include "umpire/strategy/SizeLimiter.hpp"
#include "umpire/strategy/SlotPool.hpp"
#include "umpire/strategy/ThreadSafeAllocator.hpp"
#include "umpire/alloc/MallocAllocator.hpp"
#include "umpire/alloc/PosixMemalignAllocator.hpp"
#include "umpire/resource/DefaultMemoryResource.hpp"
#include "umpire/util/MemoryMap.hpp"
#include "umpire/util/AllocationMap.hpp"
#include "umpire/util/find_first_set.hpp"

namespace verif_inst {
struct Payload { long a; long b; };
}
template class umpire::util::MemoryMap<verif_inst::Payload>;
template class umpire::TypedAllocator<double>;
template class umpire::TypedAllocator<char>;
template class umpire::TypedAllocator<verif_inst::Payload>;
template class DynamicSizePool<>;
template class umpire::resource::DefaultMemoryResource<umpire::alloc::MallocAllocator>;
template class umpire::resource::DefaultMemoryResource<umpire::alloc::PosixMemalignAllocator>;
namespace verif_inst {
inline void use()
{
  auto& rm = umpire::ResourceManager::getInstance();
  auto a = rm.getAllocator("HOST");
  rm.makeAllocator<umpire::strategy::QuickPool>("a", a);
  rm.makeAllocator<umpire::strategy::QuickPool, false>("b", a);
  rm.makeAllocator<umpire::strategy::QuickPool>("c", umpire::Tracking::Untracked, a);
}
inline void util_use2()
{
  umpire::util::MemoryMap<Payload> m;
  Payload v{1, 2};
  m.insert(nullptr, v);
  m.insert(std::make_pair(static_cast<void*>(nullptr), v));
  m.insert(nullptr, 1L, 2L);
  auto i = m.begin();
  ++i;
  i++;
  (void)(i == m.end());
  (void)(i != m.end());
  (void)i->second;
  (void)(*i).first;
  const auto& cm = m;
  auto c = cm.begin();
  ++c;
  (void)(c == cm.end());
  (void)(c != cm.end());
}

inline bool typed_use(umpire::TypedAllocator<double>& a, umpire::TypedAllocator<char>& b)
{
  umpire::TypedAllocator<char> c{a};
  return a == b || a != c || a == a || a != a;
}
// what a coalescing heuristic answers for a pool
template <class Pool>
std::size_t percent(int p, const Pool& pool) { return Pool::percent_releasable(p)(pool); }
template <class Pool>
std::size_t percent_hwm(int p, const Pool& pool) { return Pool::percent_releasable_hwm(p)(pool); }
template <class Pool>
std::size_t blocks(std::size_t n, const Pool& pool) { return Pool::blocks_releasable(n)(pool); }
template <class Pool>
std::size_t blocks_hwm(std::size_t n, const Pool& pool) { return Pool::blocks_releasable_hwm(n)(pool); }
#define VERIF_HEURISTICS(P)                                    \
  template std::size_t percent<P>(int, const P&);              \
  template std::size_t percent_hwm<P>(int, const P&);          \
  template std::size_t blocks<P>(std::size_t, const P&);       \
  template std::size_t blocks_hwm<P>(std::size_t, const P&);
VERIF_HEURISTICS(umpire::strategy::QuickPool)
VERIF_HEURISTICS(umpire::strategy::DynamicPoolList)
}
