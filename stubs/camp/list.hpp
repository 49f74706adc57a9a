#ifndef CAMP_STUB_LIST
#define CAMP_STUB_LIST
namespace camp { template <class... T> struct list {}; }
#endif
