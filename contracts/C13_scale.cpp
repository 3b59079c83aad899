// property: C13
// sources: core/lib/GNSSEph/PackedNavBits.cpp core/lib/TimeHandling/CommonTime.cpp core/lib/TimeHandling/TimeConverters.cpp core/lib/GNSSCore/ObsID.cpp core/lib/GNSSEph/NavID.cpp core/lib/RefTime/TimeSystem.cpp
// opt: timeout=60 loop_max=100000
// The contract of ScaleValue: its integer part is the value over the scale factor, rounded to nearest
#include "vp.h"
#include "PackedNavBits.hpp"
using namespace gpstk;
extern "C" void vpproof__C13__scale_to_nearest__int_real()
{
   PackedNavBits p;
   int e = (int)vp_i64("power2", -60, 60);
   double v = vp_f64("v", -1e30, 1e30), t = v / vp_uf2("pow", 2., (double)e);
   vp_assume(t >= -4e18 && t <= 4e18);
   int64_t k = (int64_t)p.ScaleValue(v, e);
#ifndef VP_PROOF
   vp_assume(t >= -1e15 && t <= 1e15);
#endif
   vp_ensure(t - k <= 0.5 && k - t <= 0.5, "nearest integer");
}
