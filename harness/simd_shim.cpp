// linked into a build variant: hides instruction sets from the runtime detection
#include "stenos/internal/simd.h"
#include <cstring>
extern "C" stenos::CPUFeatures real_features() __asm__("__real__ZN6stenos6detail19compute_cpu_featureEv");
extern "C" stenos::CPUFeatures wrap_features() __asm__("__wrap__ZN6stenos6detail19compute_cpu_featureEv");
stenos::CPUFeatures wrap_features()
{
	stenos::CPUFeatures f = real_features();
	const int m = VH_MASK;  // 1: no BMI2, 2: no AVX2, 4: no SSE4.1, 8: nothing at all
	if (m & 1) f.HAS_BMI2 = false;
	if (m & 2) f.HAS_AVX2 = false;
	if (m & 4) f.HAS_SSE41 = f.HAS_SSE42 = f.HAS_AVX = f.HAS_AVX2 = f.HAS_BMI2 = false;
	if (m & 8) memset(&f, 0, sizeof f);
	return f;
}
