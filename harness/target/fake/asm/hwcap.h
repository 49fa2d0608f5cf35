// Capability bits of the simulated architecture (values of the Linux kernel's headers).
#if defined(__aarch64__)
#define HWCAP_AES (1 << 3)
#define HWCAP_ASIMDHP (1 << 10)
#define HWCAP_ASIMDDP (1 << 20)
#define HWCAP_SVE (1 << 22)
#define HWCAP2_SVE2 (1 << 1)
#define HWCAP2_SVEAES (1 << 2)
#define HWCAP2_BF16 (1 << 14)
#elif defined(__arm__)
#define HWCAP_NEON (1 << 12)
#define HWCAP_VFPv4 (1 << 16)
#endif
