#include "fx.h"
#include "fimex/coordSys/Projection.h"
#include "fimex/reproject.h"
#include <cmath>
#include <sstream>

// numbers are texts of millionths
static J micro(double v)
{
    if (!std::isfinite(v)) return J(std::string(std::isnan(v) ? "nan" : "inf"));
    std::ostringstream o;
    o << llround(v * 1e6);
    return J(o.str());
}
static J params(const Projection& p)
{
    J o = J::obj();
    for (const CDMAttribute& a : p.getParameters()) {
        J l = J::arr();
        if (a.getDataType() == CDM_STRING)
            l.push(a.getStringValue());
        else {
            auto d = a.getData()->asDouble();
            for (size_t i = 0; i < a.getData()->size(); i++) l.push(micro(d[i]));
        }
        o.set(a.getName(), l);
    }
    return o;
}
// words +key=value of a proj4 string; numbers as above
static J words(const std::string& s)
{
    J o = J::obj();
    std::istringstream in(s);
    std::string w;
    while (in >> w) {
        const size_t e = w.find('=');
        std::string k = w.substr(0, e), v = e == std::string::npos ? "" : w.substr(e + 1);
        if (k == "+k_0") k = "+k"; // names of the same
        if (k == "+proj" && (v == "etmerc" || v == "gstmerc")) v = "tmerc";
        if (v == "longlat") v = "latlong";
        J l = J::arr();
        std::istringstream vs(v);
        std::string x;
        while (std::getline(vs, x, ',')) {
            char* end = nullptr;
            const double d = strtod(x.c_str(), &end);
            if (!x.empty() && !*end) l.push(micro(d)); else l.push(x);
        }
        if (o.has(k)) k += "(again)";
        o.set(k, l);
    }
    return o;
}
static void points(const J& c, std::vector<double>& x, std::vector<double>& y)
{
    for (size_t i = 0; i < c["pts"].size(); i++) {
        x.push_back(c["pts"][i][0].d() / 1e6);
        y.push_back(c["pts"][i][1].d() / 1e6);
    }
}
static J about(const J& c, Projection_p p, const std::string& org)
{
    J o = J::obj();
    const std::string s = p->getProj4String();
    o.set("name", p->getName()).set("deg", int(p->isDegree())).set("p", params(*p)).set("w", words(s));
    // the text and the parameters lead to the same projection again
    if (!org.empty()) o.set("again", params(*Projection::createByProj4(s)));
    o.set("same", int(*Projection::create(p->getParameters()) == *p));
    if (c["pts"].size()) {
        std::vector<double> x, y, bx, by;
        points(c, x, y);
        const std::vector<double> lx = x, ly = y;
        p->convertFromLonLat(x, y);
        bx = x; by = y;
        p->convertToLonLat(bx, by);
        double back = 0, dist = 0;
        for (size_t i = 0; i < x.size(); i++) back = std::max(back, std::max(std::abs(std::remainder(bx[i] - lx[i], 360)), std::abs(by[i] - ly[i])));
        o.set("back", int(back < 1e-6));
        if (!org.empty()) {
            std::vector<double> ox = lx, oy = ly;
            reproject::reproject_values("+proj=latlong " + c["earth"].str() + " +no_defs", org, ox.data(), oy.data(), ox.size());
            for (size_t i = 0; i < x.size(); i++) {
                double ex = ox[i] - x[i];
                if (p->isDegree()) ex = std::remainder(ex, 360);
                dist = std::max(dist, std::max(std::abs(ex), std::abs(oy[i] - y[i])));
            }
            if (c.has("dbg")) o.set("org", org).set("str", s).set("dist", dist);
            o.set("agrees", int(dist < (p->isDegree() ? 1e-6 : 0.01)));
        }
    }
    return o;
}
OP("proj4")
{
    const std::string s = c["text"].str();
    return about(c, Projection::createByProj4(s), s);
}
static CDMAttribute mkParam(const J& a)
{
    if (a["t"].str() == "string") return CDMAttribute(a["n"].str(), a["v"][0].str());
    DataPtr d = createData(dtype(a["t"].str()), a["v"].size());
    for (size_t i = 0; i < a["v"].size(); i++) d->setValue(i, strtod(a["v"][i].str().c_str(), nullptr) / 1e6);
    return CDMAttribute(a["n"].str(), d);
}
OP("projatts")
{
    std::vector<CDMAttribute> as;
    for (size_t i = 0; i < c["atts"].size(); i++) as.push_back(mkParam(c["atts"][i]));
    return about(c, Projection::create(as), "");
}
OP("earthfigure")
{
    J o = J::obj(), l = J::arr();
    std::istringstream in(replaceProj4Earthfigure(c["text"].str(), c["new"].str()));
    std::string w;
    while (in >> w) l.push(w);
    o.set("w", l);
    return o;
}
