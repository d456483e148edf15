PROP = "C13"
FILE = "include/fimex/DataUtils.h"
OLD = "        return (in == oldFill_ || mifi_isnan<IN>(in)) ? newFill_\n"
NEW = "        return mifi_isnan<IN>(in) ? newFill_\n"
NEEDS = "a read in a unit that is not linearly related to the variable's (a logarithmic one), with missing values stored as fill value"
BREAKS = "missing values come out as numbers"
DEMO = r'''
    auto r = std::make_shared<Reader>();
    r->dim("x", 3).var("p", CDM_SHORT, {"x"}, {1, 3, 2}).att("p", "units", "lg(re 1 m)").att("p", "_FillValue", CDM_SHORT, 3);
    expect("p", values(r->getScaledDataInUnit("p", "m")), {10, NaN, 100}, 1e-9);
'''
