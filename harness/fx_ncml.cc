#include "fx.h"
#include "fimex/NcmlCDMReader.h"
#include "fimex/XMLInputString.h"

#include <sstream>

static std::string esc(const std::string& s)
{
    std::string r;
    for (char ch : s) {
        switch (ch) {
        case '<': r += "&lt;"; break;
        case '>': r += "&gt;"; break;
        case '&': r += "&amp;"; break;
        case '"': r += "&quot;"; break;
        default: r += ch;
        }
    }
    return r;
}
static std::string num(double v)
{
    std::ostringstream o;
    o.precision(12);
    o << v;
    return o.str();
}
static std::string ncType(const std::string& t)
{
    if (t == "char") return "byte";
    if (t == "int64" || t == "uint64") return "long";
    if (t == "uchar") return "byte";
    if (t == "ushort") return "short";
    if (t == "uint") return "int";
    return t;
}
static std::string prop(const char* n, const std::string& v) { return v.empty() ? std::string() : std::string(" ") + n + "=\"" + esc(v) + "\""; }
static std::string attr(const J& a)
{
    std::string x = "<attribute" + prop("name", a["name"].str()) + prop("orgName", a["org"].str());
    const J& v = a["v"];
    if (!v.has("t")) return x + "/>\n";
    std::string val;
    if (v["t"].str() == "string") val = v["s"].str();
    else {
        x += prop("type", ncType(v["t"].str()));
        for (size_t i = 0; i < v["m"].size(); ++i) val += (i ? " " : "") + num(v["m"][i].d() / 1000);
    }
    if (a.i("content", 0)) return x + ">" + esc(val) + "</attribute>\n";
    return x + prop("value", val) + "/>\n";
}
// renders the document of a "ncml" command
std::string ncmlDoc(const J& d)
{
    std::string x = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<netcdf xmlns=\"http://www.unidata.ucar.edu/namespaces/netcdf/ncml-2.2\">\n";
    for (auto& r : d["rm"].a) x += "<remove" + prop("type", r[0].str()) + prop("name", r[1].str()) + "/>\n";
    for (auto& e : d["dims"].a) {
        x += "<dimension" + prop("name", e["name"].str()) + prop("orgName", e["org"].str());
        if (e["len"].i() >= 0) x += prop("length", num(e["len"].i()));
        x += prop("isUnlimited", e["u"].str());
        if (e["over"].i()) x += " overwriteName=\"true\"";
        x += "/>\n";
    }
    for (auto& a : d["ga"].a) x += attr(a);
    for (auto& e : d["vars"].a) {
        x += "<variable" + prop("name", e["name"].str()) + prop("orgName", e["org"].str()) + prop("type", ncType(e["type"].str()));
        if (e["hassh"].i()) {
            std::string sh;
            for (size_t i = e["sh"].size(); i-- > 0;) sh += e["sh"][i].str() + (i ? " " : "");
            x += " shape=\"" + sh + "\"";
        }
        x += ">\n";
        for (auto& a : e["rmatts"].a) x += "<remove type=\"attribute\"" + prop("name", a.str()) + "/>\n";
        for (auto& a : e["atts"].a) x += attr(a);
        if (e["hasvals"].i() == 1) {
            x += "<values>";
            for (size_t i = 0; i < e["vals"].size(); ++i) x += (i ? " " : "") + num(e["vals"][i].d());
            x += "</values>\n";
        } else if (e["hasvals"].i() == 2) {
            x += "<values start=\"" + num(e["vals"][0].d()) + "\" increment=\"" + num(e["vals"][1].d()) + "\"/>\n";
        }
        x += "</variable>\n";
    }
    return x + "</netcdf>\n";
}
OP("ncml")
{
    CDMReader_p from = rd(c, "from");
    R.erase(c["id"].str());
    R[c["id"].str()] = std::make_shared<NcmlCDMReader>(from, XMLInputString(ncmlDoc(c["doc"]), "fx"));
    return J::obj();
}
