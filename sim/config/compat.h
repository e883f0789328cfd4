// glibc 2.32 removed sys_siglist, which the tree indexes (same shim as the project's own build uses)
#ifdef __cplusplus
#include <cstring>
namespace vp_compat { struct SysSigList { const char * operator [] (int sig) const { return ::strsignal(sig); } }; static const SysSigList siglist = {}; }
#define sys_siglist (::vp_compat::siglist)
#endif
