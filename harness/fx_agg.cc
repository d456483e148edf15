#include "fx.h"
#include "fimex/AggregationReader.h"
#include "fimex/NcmlCDMReader.h"
#include "fimex/XMLInputString.h"
#include "fimex/CDMFileReaderFactory.h"
#include <sys/stat.h>
#include <unistd.h>

static const char* NS = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<netcdf xmlns=\"http://www.unidata.ucar.edu/namespaces/netcdf/ncml-2.2\"";

// via: direct (in-memory aggregation), ncml (list of locations), scan (directory scan)
OP("agg")
{
    const std::string type = c["type"].str(), via = c["via"].str();
    const J& srcs = c["srcs"];
    auto coord = [&](size_t k) {
        std::string s;
        if (c.has("percoord"))
            for (auto& x : c["percoord"][k].a) s += (s.empty() ? "" : " ") + std::to_string(x.i());
        return s;
    };
    CDMReader_p res;
    if (via == "direct") {
        auto a = std::make_shared<AggregationReader>(type);
        std::set<std::string> vars;
        for (auto& v : c["vars"].a) vars.insert(v.str());
        if (type == "joinNew") a->joinNewVars(c["dim"].str(), vars);
        for (size_t k = 0; k < srcs.size(); ++k) {
            auto it = R.find(srcs[k].str());
            a->addReader(it->second, srcs[k].str(), coord(k));
        }
        a->initAggregation();
        res = a;
    } else {
        std::string x = std::string(NS) + ">\n";
        std::string body;
        for (auto& v : c["vars"].a) body += "<variableAgg name=\"" + v.str() + "\"/>\n";
        if (via == "scan") {
            const std::string dir = tmpfile_("d");
            mkdir(dir.c_str(), 0777);
            for (size_t k = 0; k < srcs.size(); ++k) {
                const std::string to = dir + "/" + c["names"][k].str();
                const size_t sl = c["names"][k].str().find('/');
                if (sl != std::string::npos) mkdir((dir + "/" + c["names"][k].str().substr(0, sl)).c_str(), 0777);
                if (link(files.at(srcs[k].str()).c_str(), to.c_str()) != 0) throw std::runtime_error("harness: link " + to);
            }
            // something that does not match
            FILE* f = fopen((dir + "/readme.txt").c_str(), "w");
            fputs("x\n", f);
            fclose(f);
            body += "<scan location=\"" + dir + " netcdf\" suffix=\".nc\"" + (c.i("subdirs", 1) ? "" : " subdirs=\"false\"") + "/>\n";
        } else {
            for (size_t k = 0; k < srcs.size(); ++k) {
                const std::string co = coord(k);
                body += "<netcdf location=\"" + files.at(srcs[k].str()) + " netcdf\"" + (co.empty() ? "" : " coordValue=\"" + co + "\"") + "/>\n";
            }
        }
        const std::string agg = "<aggregation type=\"" + type + "\"" + (type == "joinNew" ? " dimName=\"" + c["dim"].str() + "\"" : "") + ">\n" + body + "</aggregation>\n";
        x += agg;
        if (c.i("second", 0)) x += "<aggregation type=\"union\"><netcdf location=\"" + files.at(srcs[0].str()) + " netcdf\"/></aggregation>\n";
        x += "</netcdf>\n";
        res = std::make_shared<NcmlCDMReader>(XMLInputString(x, "fx"));
    }
    R[c["id"].str()] = res;
    return J::obj();
}
