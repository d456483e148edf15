#include "fx.h"
#include "fimex/CDMVerticalInterpolator.h"

OP("vert")
{
    R[c["id"].str()] = std::make_shared<CDMVerticalInterpolator>(rd(c, "from"), c["type"].str(), c["method"].str());
    return J::obj();
}
OP("vertto")
{
    auto v = std::dynamic_pointer_cast<CDMVerticalInterpolator>(rd(c));
    const std::string m = c["mode"].str();
    if (m == "fixed") {
        std::vector<double> l;
        for (auto& x : c["levels"].a) l.push_back(x.d());
        v->interpolateToFixed(l);
    } else if (m == "axis") v->interpolateToAxis(c["axis"].str());
    else v->interpolateByTemplateVariable(c["tvar"].str());
    return J::obj();
}
