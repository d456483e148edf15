#include "fx.h"
#include "fimex/CDMQualityExtractor.h"
#include <fstream>
#include <sstream>

static std::string dotted(const J& tok)
{
    std::ostringstream o;
    bool first = true;
    for (auto& t : tok.a) {
        if (!first) o << ',';
        first = false;
        if (t["k"].str() == "n") o << t["v"].i();
        else o << "...";
    }
    return o.str();
}

OP("quality")
{
    CDMReader_p from = rd(c, "from");
    R.erase(c["id"].str());
    std::string cfg;
    if (!c["cfg"].a.empty()) {
        cfg = tmpfile_(".xml");
        std::ofstream o(cfg);
        o << "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<cdmQualityConfig>\n";
        for (auto& e : c["cfg"].a) {
            o << "<variable name=\"" << e["var"].str() << "\"";
            if (!e["fill"].a.empty()) o << " fillValue=\"" << e["fill"].a[0].i() << "\"";
            o << ">\n";
            if (!e["status"].str().empty()) {
                o << " <status_flag_variable name=\"" << e["status"].str() << "\"";
                if (!e["src"].str().empty()) o << " file=\"" << files.at(e["src"].str()) << "\" type=\"netcdf\"";
                o << ">\n  <allowed_values";
                const std::string use = e["use"].str();
                if (!use.empty()) {
                    o << " use=\"" << use;
                    if (use == "min" || use == "max") o << ":" << e["arg"].i();
                    o << "\"";
                }
                o << ">" << dotted(e["vals"]) << "</allowed_values>\n </status_flag_variable>\n";
            }
            o << "</variable>\n";
        }
        o << "</cdmQualityConfig>\n";
    }
    std::string au = c["auto"].str();
    if (au == "values") au = "values=" + dotted(c["autovals"]);
    R[c["id"].str()] = std::make_shared<CDMQualityExtractor>(from, au, cfg);
    return J::obj();
}
