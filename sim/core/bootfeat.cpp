// compiled with the library's own flags
#include <dpm/detail/alias.hpp>
#include <dpm/detail/x86/cpuid.hpp>
#include "boot.hpp"
namespace sim {
using C = dpm::ext::cpuid;
#define F(n) {#n, [] { return C::n(); }}
const BootFeature boot_feature[F_N] = {F(is_intel), F(is_amd), F(has_msr), F(has_cx8), F(has_sep), F(has_cmov), F(has_clfsh), F(has_xsave), F(has_f16c), F(has_cmpxchg16b), F(has_sse), F(has_sse2), F(has_sse3), F(has_ssse3), F(has_sse4_1), F(has_sse4_2),
	F(has_avx), F(has_avx2), F(has_fma), F(has_avx512f), F(has_avx512cd), F(has_avx512bw), F(has_avx512dq), F(has_avx512vl)};
}
