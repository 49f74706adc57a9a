// Minimal stand-in for the camp headers, which are not installed here: just the names Umpire's host side uses.
#ifndef CAMP_STUB_PLATFORM
#define CAMP_STUB_PLATFORM
namespace camp { namespace resources {
enum class Platform { undefined = 0, host = 1, cuda = 2, omp_target = 4, hip = 8, sycl = 16 };
}}
#endif
