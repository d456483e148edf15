#include "fx.h"
#include "fimex/CDMExtractor.h"
#include "fimex/FimexTime.h"

OP("extract")
{
    R[c["id"].str()] = std::make_shared<CDMExtractor>(rd(c, "from"));
    return J::obj();
}
OP("ext")
{
    auto e = std::dynamic_pointer_cast<CDMExtractor>(rd(c));
    if (!e) throw std::runtime_error("harness: not an extractor");
    const std::string d = c["do"].str();
    if (d == "range") e->reduceDimension(c["dim"].str(), (size_t)c["start"].i(), (size_t)c["size"].i());
    else if (d == "set") {
        std::set<size_t> s;
        for (auto& p : c["pos"].a) s.insert((size_t)p.i());
        e->reduceDimension(c["dim"].str(), s);
    }
    else if (d == "se") e->reduceDimensionStartEnd(c["dim"].str(), (size_t)c["start"].i(), c["end"].i());
    else if (d == "rm") e->removeVariable(c["var"].str());
    else if (d == "keep") {
        std::set<std::string> k;
        for (auto& p : c["keep"].a) k.insert(p.str());
        e->selectVariables(k, false);
    }
    else if (d == "time") {
        FimexTime a(FimexTime::min_date_time), b(FimexTime::max_date_time);
        if (!c["from"].str().empty() && !a.parseISO8601(c["from"].str())) throw std::runtime_error("harness: time");
        if (!c["to"].str().empty() && !b.parseISO8601(c["to"].str())) throw std::runtime_error("harness: time");
        e->reduceTime(a, b);
    }
    else if (d == "level") e->reduceVerticalAxis(c["unit"].str(), c["lo"].i() / 1000., c["hi"].i() / 1000.);
    else if (d == "bbox") e->reduceLatLonBoundingBox(c["s"].i() / 4., c["n"].i() / 4., c["w"].i() / 4., c["e"].i() / 4.);
    else throw std::runtime_error("harness: ext " + d);
    return J::obj();
}
