PROP = "C02"
FILE = "src/CDMReader.cc"
OLD = "retData = createData(variable.getDataType(), unLimSliceSize*unLimDimSize, cdm_->getFillValue(varName));"
NEW = "retData = createData(variable.getDataType(), unLimSliceSize*unLimDimSize, 0.);"
NEEDS = "a block read from a reader that delivers no data for one of the records"
BREAKS = "the absent record reads as zeros instead of fill values"
PRE = '''
struct Gap : Reader
{
    using Reader::getDataSlice;
    DataPtr getDataSlice(const std::string& v, size_t p) override { return p == 1 && v == "p" ? createData(CDM_SHORT, 0) : Reader::getDataSlice(v, p); }
};
'''
DEMO = r'''
    auto r = std::make_shared<Gap>();
    r->dim("x", 2).dim("t", 3, true).var("p", CDM_SHORT, {"x", "t"}, {1, 2, 3, 4, 5, 6}).att("p", "_FillValue", CDM_SHORT, -9);
    SliceBuilder sb(r->getCDM(), "p");
    expect("p", values(r->getDataSlice("p", sb)), {1, 2, -9, -9, 5, 6});
'''
