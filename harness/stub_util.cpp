// Stand-ins for services the checked code refers to but the checks do not reach.
#include <aqsis/util/logging.h>
#include <aqsis/util/file.h>
#include <aqsis/riutil/ricxx_filter.h>
#include <ostream>
namespace Aqsis {
std::ostream& log() { static std::ostream o((std::streambuf*)0); return o; }
#define M(n) std::ostream& n(std::ostream& o) { return o; }
M(debug) M(info) M(warning) M(error) M(critical) M(alert) M(emergency) M(notice)
boostfs::path findFileNothrow(const std::string&, const std::string&) { return boostfs::path(); }
std::string expandSearchPath(const std::string& p, const std::string&, const std::string&) { return p; }
std::string native(const boostfs::path& p) { return p.string(); }
namespace { }
}
#ifdef VS_STUB_FILTER
namespace Aqsis { Ri::Filter* createFilter(const char*, const Ri::ParamList&) { return 0; } }
#endif
