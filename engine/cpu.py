"""CPU profiles: what the CPUID/XGETBV instructions answer, and which code may run."""
import terms as T

SSE = {"sse3", "ssse3", "sse4.1", "sse4.2"}


class Cpu:
    def __init__(self, name, ecx1, ebx7, xcr0, allowed):
        self.name = name
        self.ecx1 = ecx1
        self.ebx7 = ebx7
        self.xcr0 = xcr0
        self.allowed = frozenset(allowed)

    def cpuid(self, leaf, sub):
        if type(leaf) is not int:
            raise AssertionError("symbolic cpuid leaf")
        if leaf == 0:
            return (7, 0x756E6547, 0x6C65746E, 0x49656E69)
        if leaf == 1:
            return (0x000906EA, 0x00100800, self.ecx1, 0x178BFBFF)
        if leaf == 7:
            if sub == 0:
                return (0, self.ebx7, 0, 0)
            return (0, 0, 0, 0)
        if leaf == 0x80000000:
            return (0x80000000, 0, 0, 0)
        return (0, 0, 0, 0)

    def xgetbv(self, r):
        return self.xcr0


B_SSE3, B_SSSE3, B_SSE41, B_SSE42, B_POPCNT, B_XSAVE, B_OSXSAVE, B_AVX = 0, 9, 19, 20, 23, 26, 27, 28


def bits(*b):
    return sum(1 << x for x in b)


PORTABLE = Cpu("portable", 0, 0, 0, ())
SSE41 = Cpu("sse4.1", bits(B_SSE3, B_SSSE3, B_SSE41), 0, 0, ("sse3", "ssse3", "sse4.1"))
AVX2 = Cpu("avx2", bits(B_SSE3, B_SSSE3, B_SSE41, B_SSE42, B_POPCNT, B_XSAVE, B_OSXSAVE, B_AVX), bits(5), 7,
           ("sse3", "ssse3", "sse4.1", "sse4.2", "avx", "avx2", "popcnt"))
# AVX but not AVX2 (Sandy Bridge); AVX2 in CPUID but AVX state not enabled by the operating system
AVX1 = Cpu("avx-without-avx2", AVX2.ecx1, 0, 7, ("sse3", "ssse3", "sse4.1", "sse4.2", "avx", "popcnt"))
NOOS = Cpu("avx2-without-os-support", AVX2.ecx1 & ~bits(B_OSXSAVE), bits(5), 0,
           ("sse3", "ssse3", "sse4.1", "sse4.2", "popcnt"))
SSE3 = Cpu("ssse3-only", bits(B_SSE3, B_SSSE3), 0, 0, ("sse3", "ssse3"))

BY_NAME = {c.name: c for c in (PORTABLE, SSE41, AVX2, AVX1, NOOS, SSE3)}
MAIN = (PORTABLE, SSE41, AVX2)
