PROP = "C07"
FILE = "src/CDMProcessor.cc"
OLD = "addDataP2Data(data, dataP, i == 0);"
NEW = "addDataP2Data(data, dataP, i == start);"
NEEDS = "an accumulated variable with a missing value at a time after the one read last, then a read of a still later time (the total continues from the cache)"
BREAKS = "the missing value counts as zero, so the total depends on what was read before"
INC = ["fimex/CDMProcessor.h"]
DEMO = r'''
    auto r = std::make_shared<Reader>();
    r->dim("x", 1).dim("t", 5, true).var("p", CDM_DOUBLE, {"x", "t"}, {1, 2, NaN, 4, 5});
    auto p = std::make_shared<CDMProcessor>(r);
    p->accumulate("p");
    expect("t=1", values(p->getDataSlice("p", 1)), {3});
    expect("t=4", values(p->getDataSlice("p", 4)), {NaN});
'''
