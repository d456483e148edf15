PROP = "C10"
FILE = "src/CDMTimeInterpolator.cc"
OLD = '''                if (pos == oldTimes.size()) {
                    // extrapolation at the end, starting with last and previous element
                    pos--;
                }
'''
NEW = '''                if (pos + 1 >= oldTimes.size() && oldTimes.size() > 2) {
                    // extrapolation at the end, starting with last and previous element
                    pos = oldTimes.size() - 2;
                }
'''
NEEDS = "a new time within the last interval of at least three original times, values not on one line"
BREAKS = "the last interval is extrapolated from the one before instead of interpolated"
INC = ["fimex/CDMTimeInterpolator.h"]
DEMO = r'''
    auto r = std::make_shared<Reader>();
    r->dim("time", 3, true).var("time", CDM_DOUBLE, {"time"}, {0, 2, 4}).att("time", "units", "hours since 2000-01-01 00:00:00").att("time", "standard_name", "time");
    r->var("v", CDM_FLOAT, {"time"}, {0, 10, 0});
    auto t = std::make_shared<CDMTimeInterpolator>(r);
    t->changeTimeAxis("2000-01-01 01:00:00,2000-01-01 03:00:00,2000-01-01 04:00:00;unit=hours since 2000-01-01 00:00:00");
    expect("v", values(t->getData("v")), {5, 5, 0});
'''
