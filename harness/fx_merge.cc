// overlay, border smoothing, merge
#include "fx.h"
#include "fimex/CDMBorderSmoothing.h"
#include "fimex/CDMBorderSmoothing_Linear.h"
#include "fimex/CDMMerger.h"
#include "fimex/CDMOverlay.h"
#include "fimex/interpolation.h"
#include <cmath>

static int meth(const J& c) { return mifi_string_to_interpolation_method(c["m"].str().c_str()); }
OP("overlay")
{
    R[c["id"].str()] = std::make_shared<CDMOverlay>(rd(c, "base"), rd(c, "top"), meth(c), c["keep"].i() != 0);
    return J::obj();
}
OP("smooth")
{
    auto s = std::make_shared<CDMBorderSmoothing>(rd(c, "top"), rd(c, "base"), meth(c));
    s->setSmoothing(createSmoothingFactory("LINEAR(" + std::to_string(c["tw"].i()) + "," + std::to_string(c["bw"].i()) + ")"));
    s->setUseOuterIfInnerUndefined(c["use"].i() != 0);
    R[c["id"].str()] = s;
    return J::obj();
}
OP("merge")
{
    auto s = std::make_shared<CDMMerger>(rd(c, "top"), rd(c, "base"));
    s->setSmoothing(createSmoothingFactory("LINEAR(" + std::to_string(c["tw"].i()) + "," + std::to_string(c["bw"].i()) + ")"));
    s->setUseOuterIfInnerUndefined(c["use"].i() != 0);
    s->setKeepOuterVariables(c["keep"].i() != 0);
    s->setGridInterpolationMethod(meth(c));
    if (c["xs"].size() == 0) s->setTargetGridFromInner();
    else {
        std::vector<double> x, y;
        for (auto& e : c["xs"].a) x.push_back(e.d());
        for (auto& e : c["ys"].a) y.push_back(e.d());
        s->setTargetGrid("+proj=longlat +datum=WGS84 +no_defs", x, y, "degree", "degree", CDM_DOUBLE, CDM_DOUBLE);
    }
    R[c["id"].str()] = s;
    return J::obj();
}
OP("blend")
{
    CDMBorderSmoothing_Linear l(c["tw"].i(), c["bw"].i());
    l.setHorizontalSizes(c["nx"].i(), c["ny"].i());
    J o = J::obj(), d = J::arr();
    for (long y = 0; y < c["ny"].i(); ++y)
        for (long x = 0; x < c["nx"].i(); ++x) {
            const double v = l(x, y, c["vi"].i(), c["vo"].i());
            d.push(std::isfinite(v) && std::fabs(v) < 1e6 ? std::round(v * 1000) : V_BIG);
        }
    o.set("d", d);
    return o;
}
