#include "fx.h"
#include "fimex/CDMProcessor.h"

OP("proc")
{
    CDMReader_p from = rd(c, "from");
    R.erase(c["id"].str());
    auto p = std::make_shared<CDMProcessor>(from);
    for (auto& v : c["acc"].a) p->accumulate(v.str());
    for (auto& v : c["deacc"].a) p->deAccumulate(v.str());
    R[c["id"].str()] = p;
    return J::obj();
}
