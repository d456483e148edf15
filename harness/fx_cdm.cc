// metadata operations
#include "fx.h"
#include "fimex/CDMAttribute.h"
#include "fimex/CDMDimension.h"
#include "fimex/CDMVariable.h"

static std::map<std::string, CDM> M;
struct ResetM { };
void resetCdms() { M.clear(); }

OP("cdm")
{
    CDM& m = M[c["id"].str()];
    const std::string d = c["do"].str();
    bool r = true, err = false;
    try {
        if (d == "adddim") { CDMDimension dim(c["name"].str(), c["len"].i()); dim.setUnlimited(c["u"].i() != 0); m.addDimension(dim); }
        else if (d == "addvar") {
            std::vector<std::string> sh;
            for (auto& s : c["sh"].a) sh.push_back(s.str());
            m.addVariable(CDMVariable(c["name"].str(), dtype(c["t"].str()), sh));
        }
        else if (d == "rmvar") m.removeVariable(c["name"].str());
        else if (d == "renvar") r = m.renameVariable(c["name"].str(), c["to"].str());
        else if (d == "rmdim") r = m.removeDimension(c["name"].str(), c["force"].i() != 0);
        else if (d == "rendim") r = m.renameDimension(c["name"].str(), c["to"].str(), c["force"].i() != 0);
        else if (d == "addatt") m.addAttribute(c["var"].str(), mkAttr(c["name"].str(), c["val"]));
        else if (d == "setatt") m.addOrReplaceAttribute(c["var"].str(), mkAttr(c["name"].str(), c["val"]));
        else if (d == "rmatt") m.removeAttribute(c["var"].str(), c["name"].str());
        else throw std::runtime_error("harness: cdm op " + d);
    } catch (CDMException&) {
        err = true;
    }
    J o = describe(m);
    o.set("st", err ? "err" : "ok").set("r", (!err && r) ? 1 : 0);
    return o;
}
OP("cdmcopy")
{
    CDM x(M[c["from"].str()]);
    M[c["id"].str()] = x;
    return describe(M[c["id"].str()]);
}
OP("cdmq")
{
    const CDM& m = M[c["id"].str()];
    const std::string q = c["q"].str();
    J o = J::obj();
    if (q == "var") {
        const std::string n = c["name"].str();
        const bool has = m.hasVariable(n);
        J a = J::obj();
        for (auto& x : m.getAttributes(n)) {
            a.set(x.getName(), attrSpec(x));
            if (!m.hasAttribute(n, x.getName())) a.set("?", 1);
            CDMAttribute y;
            if (!m.getAttribute(n, x.getName(), y)) a.set("?", 1);
        }
        o.set("has", has ? 1 : 0).set("unlim", (has && m.hasUnlimitedDim(m.getVariable(n))) ? 1 : 0).set("atts", a);
    } else if (q == "dim") {
        const std::string n = c["name"].str();
        const bool has = m.hasDimension(n);
        o.set("has", has ? 1 : 0).set("used", m.testDimensionInUse(n) ? 1 : 0).set("len", has ? (long)m.getDimension(n).getLength() : -1l);
    } else if (q == "unlim") {
        const CDMDimension* d = m.getUnlimitedDim();
        o.set("name", d ? d->getName() : std::string());
    } else if (q == "find") {
        std::map<std::string, std::string> want;
        for (auto& w : c["want"].o) {
            std::string re;
            for (auto& s : w.second.a) re += (re.empty() ? "" : "|") + s.str();
            want[w.first] = re;
        }
        std::vector<std::string> dims;
        for (auto& s : c["dims"].a) dims.push_back(s.str());
        J v = J::obj();
        for (auto& s : m.findVariables(want, dims)) v.set(s, 1);
        o.set("vars", v);
    } else throw std::runtime_error("harness: query " + q);
    return o;
}

// ------------------------------------------------------- coordinate systems
#include "fimex/coordSys/CoordinateAxis.h"
#include "fimex/coordSys/CoordinateSystem.h"
#include "fimex/coordSys/Projection.h"
#include "fimex/coordSys/verticalTransform/VerticalTransformation.h"

static std::string axisName(CoordinateAxis_cp a) { return a ? a->getName() : ""; }
OP("coordsys")
{
    const bool cdm = c.has("cdm");
    const CDM& m = cdm ? M[c["id"].str()] : rd(c)->getCDM();
    J o = J::obj(), cs = J::obj(), vars = J::obj();
    const CoordinateSystem_cp_v l = cdm ? listCoordinateSystems(m) : listCoordinateSystems(rd(c));
    std::vector<std::string> order;
    for (auto& n : c["order"].a) order.push_back(n.str());
    for (auto& y : l) {
        J s = J::obj(), ax = J::obj(), f = J::arr(), d = J::arr(), q = J::arr();
        std::set<std::string> names;
        for (auto& a : y->getAxes()) { ax.set(a->getName(), a->getAxisTypeStr()); names.insert(a->getName()); }
        std::string id;
        for (auto& n : names) id += (id.empty() ? "" : ",") + n;
        if (y->id() != y->getConventionName() + ":" + id) id += "?" + y->id();
        for (auto& n : order) if (y->isCSFor(n) && y->isComplete(n)) f.push(n);
        const std::set<std::string> deps = y->getDependencyVariables();
        for (auto& n : deps) d.push(n);
        q.push(axisName(y->getGeoXAxis())).push(axisName(y->getGeoYAxis())).push(axisName(y->getGeoZAxis())).push(axisName(y->getTimeAxis()));
        s.set("ax", ax).set("simple", y->isSimpleSpatialGridded()).set("p", y->hasProjection() ? y->getProjection()->getName() : "").set("for", f).set("needs", d).set("xyzt", q);
        s.set("v", y->hasVerticalTransformation() ? y->getVerticalTransformation()->getName() + "(" + y->getVerticalTransformation()->getParameterString() + ")" : std::string());
        cs.set(id, s);
    }
    for (auto& v : m.getVariables()) {
        const std::string& n = v.getName();
        J q = J::arr();
        std::string la, lo;
        q.push(m.getHorizontalXAxis(n)).push(m.getHorizontalYAxis(n)).push(m.getVerticalAxis(n)).push(m.getTimeAxis(n));
        m.getLatitudeLongitude(n, la, lo);
        q.push(la).push(lo);
        Projection_cp p = m.getProjectionOf(n);
        q.push(p ? p->getName() : "");
        vars.set(n, q);
    }
    return o.set("n", l.size()).set("cs", cs).set("vars", vars);
}
OP("besthoriz")
{
    std::map<std::string, CoordinateSystem_cp> systems;
    std::map<std::string, std::string> variables;
    std::vector<std::string> bad;
    const int n = findBestHorizontalCoordinateSystems(c["proj"].i() != 0, rd(c), systems, variables, bad);
    J o = J::obj(), ids = J::obj(), vars = J::obj();
    for (auto& s : systems) ids.set(s.first, s.second && s.second->horizontalId() == s.first ? 1 : 0);
    for (auto& v : variables) vars.set(v.first, v.second);
    return o.set("n", n).set("ids", ids).set("vars", vars);
}
OP("vectors")
{
    enhanceVectorProperties(rd(c));
    const CDM& m = rd(c)->getCDM();
    static const char* dir[] = {"none", "x", "y", "longitude", "latitude"};
    J o = J::obj(), v = J::obj();
    for (auto& x : m.getVariables()) {
        if (!x.isSpatialVector()) continue;
        J q = J::arr();
        q.push(x.getSpatialVectorCounterpart()).push(dir[x.getSpatialVectorDirection()]);
        v.set(x.getName(), q);
    }
    return o.set("v", v);
}
