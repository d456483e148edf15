PROP = "C24"
FILE = "src/FimexTime.cc"
OLD = '''std::round(string2type<double>("." + seconds[1]) * 1000);'''
NEW = '''static_cast<int>(string2type<double>("." + seconds[1]) * 1000);'''
NEEDS = "a time text with a fraction of a second given to more than milliseconds"
BREAKS = "the time is a millisecond too early"
INC = ["fimex/FimexTime.h"]
DEMO = r'''
    for (int k = 0; k < 10000; ++k) {
        char t[40];
        snprintf(t, sizeof t, "2001-02-03 04:05:06.%04d", k);
        if (k % 10 == 5 || k > 9990) continue;
        FimexTime f;
        expectTrue("parse", f.parseISO8601(t));
        if (f.getMSecond() != (k + 5) / 10) { if (++bad < 5) std::cout << t << " gives " << f.getMSecond() << std::endl; }
    }
'''
