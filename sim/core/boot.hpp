#pragma once
namespace sim {
enum { F_INTEL, F_AMD, F_MSR, F_CX8, F_SEP, F_CMOV, F_CLFSH, F_XSAVE, F_F16C, F_CX16, F_SSE, F_SSE2, F_SSE3, F_SSSE3, F_SSE41, F_SSE42, F_AVX, F_AVX2, F_FMA, F_512F, F_512CD, F_512BW, F_512DQ, F_512VL, F_N };
struct BootFeature { const char *name; bool (*has)(); };
extern const BootFeature boot_feature[F_N];
}
