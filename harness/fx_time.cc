#include "fx.h"
#include "fimex/CDMTimeInterpolator.h"
#include "fimex/TimeSpec.h"
#include "fimex/TimeUnit.h"
#include "fimex/TimeUtils.h"
#include "fimex/Units.h"
#include "fimex/CDMReaderUtils.h"
#include "fimex/CDM_XMLConfigHelper.h"
#include "fimex/ReplaceStringTimeObject.h"
#include <cmath>
#include <limits>
#include <sstream>

// times are seconds since 2000-01-01
static const char* REF = "seconds since 2000-01-01 00:00:00";
OP("timespec")
{
    TimeUnit tu(REF);
    TimeSpec ts(c["text"].str(), tu.unitTime2fimexTime(c["start"].d()), tu.unitTime2fimexTime(c["end"].d()));
    J o = J::obj(), d = J::arr();
    for (auto& t : ts.getTimeSteps()) d.push(enc(tu.fimexTime2unitTime(t), 1, false));
    o.set("d", d).set("u", ts.getUnitString());
    return o;
}
OP("tint")
{
    R[c["id"].str()] = std::make_shared<CDMTimeInterpolator>(rd(c, "from"));
    return J::obj();
}
OP("tintchange")
{
    std::dynamic_pointer_cast<CDMTimeInterpolator>(rd(c))->changeTimeAxis(c["text"].str());
    return J::obj();
}

// ---------------------------------------------------------------- calendar
static J pair(double seconds)
{
    const long long ms = llround(seconds * 1000), day = 86400000;
    long long d = ms / day;
    if (ms % day < 0) d--;
    J o = J::arr();
    o.push(d).push(ms - d * day);
    return o;
}
static J tuple(const FimexTime& t)
{
    J o = J::arr();
    o.push(int(t.getYear())).push(int(t.getMonth())).push(int(t.getMDay())).push(int(t.getHour())).push(int(t.getMinute())).push(int(t.getSecond())).push(int(t.getMSecond()));
    return o;
}
static FimexTime fimexTime(const J& t)
{
    return FimexTime(int(t[0].d()), int(t[1].d()), int(t[2].d()), int(t[3].d()), int(t[4].d()), int(t[5].d()), int(t[6].d()));
}
static FimexTime special(const J& a)
{
    if (a["k"].str() == "min") return FimexTime(FimexTime::min_date_time);
    if (a["k"].str() == "max") return FimexTime(FimexTime::max_date_time);
    return fimexTime(a["t"]);
}
OP("cal")
{
    const std::string f = c["f"].str();
    J o = J::obj();
    if (f == "unit") {
        TimeUnit tu(c["text"].str());
        const double v = c["n"].d() / c["den"].d(), per = c["sec"].d();
        o.set("t", tuple(tu.unitTime2fimexTime(v)));
        o.set("e", pair(tu.unitTime2epochSeconds(v)));
        o.set("b", pair(tu.epochSeconds2unitTime(tu.unitTime2epochSeconds(v)) * per));
        o.set("r", pair(tu.fimexTime2unitTime(tu.unitTime2fimexTime(v)) * per));
    } else if (f == "time") {
        TimeUnit tu(c["text"].str());
        const FimexTime t = fimexTime(c["t"]);
        o.set("u", pair(tu.fimexTime2unitTime(t) * c["sec"].d()));
        std::ostringstream s;
        s << t;
        o.set("iso", s.str()).set("iso2", make_time_string_extended(t)).set("compact", make_time_string(t));
        FimexTime p;
        o.set("parsed", p.parseISO8601(s.str()) ? tuple(p) : J::arr());
        if (c["tp"].n) {
            const time_point tp = asTimePoint(t);
            o.set("e", pair(timePoint2epochTime(tp))).set("tp", tuple(fromTimePoint(tp)));
            if (fimexTime2epochTime(t) != timePoint2epochTime(tp)) o.set("e", "differs");
            o.set("tpiso", make_time_string_extended(tp)).set("tpcompact", make_time_string(tp));
            o.set("tpparsed", tuple(fromTimePoint(make_time_from_string(s.str()))));
            o.set("tps", tuple(fromTimePoint(make_time_from_timet(timePoint2epochTime(make_time_point(t.getYear(), t.getMonth(), t.getMDay(), t.getHour(), t.getMinute(), t.getSecond()))))));
        }
    } else if (f == "parse") {
        std::string s;
        for (size_t i = 0; i < c["ch"].size(); i++) s += c["ch"][i].str();
        FimexTime p;
        bool ok = false, ok2 = true;
        try { ok = p.parseISO8601(s); } catch (std::exception&) {}
        try { if (!(string2FimexTime(s) == p)) ok = false; } catch (std::exception&) { ok2 = false; }
        if (ok != ok2) o.set("t", "differs");
        else o.set("t", ok ? tuple(p) : J::arr());
    } else if (f == "cmp") {
        const FimexTime a = special(c["a"]), b = special(c["b"]);
        o.set("lt", a < b).set("le", a <= b).set("eq", a == b).set("ne", a != b).set("ge", a >= b).set("gt", a > b);
        o.set("enc", (a.invalid() || FimexTime::fromEncoded(a.toEncoded()) == a) && (a.toEncoded() < b.toEncoded()) == (a < b));
    } else if (f == "special") {
        const FimexTime a = special(c["a"]);
        TimeUnit tu(c["text"].str());
        const double v = tu.fimexTime2unitTime(a, 17.25);
        o.set("inv", a.invalid() && is_invalid_time_point(a) && is_invalid_time_point(asTimePoint(a)));
        o.set("v", v == std::numeric_limits<double>::lowest() ? "lowest" : v == std::numeric_limits<double>::max() ? "largest" : v == 17.25 ? "given" : "other");
    } else if (f == "bad") {
        bool made = true;
        try { TimeUnit tu(c["text"].str()); } catch (std::exception&) { made = false; }
        o.set("time", Units().isTime(c["text"].str())).set("made", made);
    } else if (f == "text") {
        std::map<std::string, std::shared_ptr<ReplaceStringObject>> m;
        for (auto& p : c["times"].o) m[p.first] = std::make_shared<ReplaceStringTimeObject>(fimexTime2epochTime(fimexTime(p.second)));
        o.set("s", replaceTemplateAttribute(c["text"].str(), m));
    } else if (f == "ref") {
        o.set("t", tuple(getUniqueForecastReferenceTimeFT(rd(c))));
    }
    return o;
}
