#ifndef CAMP_STUB_RESOURCE
#define CAMP_STUB_RESOURCE
#include "camp/resource/platform.hpp"
namespace camp { namespace resources {
struct Event { void wait() const {} bool check() const { return true; } };
class Resource {
public:
  Event get_event() { return Event{}; }
  Platform get_platform() const { return m_p; }
  template <class T> T* try_get() { return nullptr; }
  Platform m_p{Platform::host};
};
struct Host { static Host get_default() { return Host{}; } operator Resource() const { return Resource{}; } };
template <class R> struct EventProxy {
  explicit EventProxy(R&) {}
  operator Event() const { return Event{}; }
  Event get() const { return Event{}; }
};
}}
#endif
