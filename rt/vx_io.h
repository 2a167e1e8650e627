// What harnesses see of the modelled outside world: files, streams, clock zone, numbers written.
#pragma once
#include <string>
#include <cstdint>
namespace vxrt {
struct VFile { const char* name; const char* data; size_t size; bool exists; bool readable; size_t pos; int opens; int closes; };
extern VFile* vfiles[8]; extern int n_vfiles;
extern double doubles[16]; extern int n_doubles; extern int double_prec[16]; extern int double_fixed[16];
extern int64_t local_offset; extern bool local_dst; extern int n_gmtime, n_localtime, n_timegm, n_mktime;
std::string cout_text(); std::string cerr_text(); void reset_cout(); void set_cin(const std::string& s);
}
extern "C" int64_t vx_now_ns(void);
