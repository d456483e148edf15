PROP = "C26"
FILE = "src/io/netcdf/NetCDF_CDMWriter.cc"
OLD = '''                msg << "; message: " << ex.what();
                LOG4FIMEX(logger, Logger::ERROR, msg.str());
                data = nullptr;
                exceptions = true;'''
NEW = '''                msg << "; message: " << ex.what();
                LOG4FIMEX(logger, Logger::ERROR, msg.str());
                data = nullptr;
                exceptions = no_unlim || unLimDimPos == 0;'''
NEEDS = "a source that fails to deliver a record after the first one"
BREAKS = "the file is written without that record, and nobody is told"
INC = ["fimex/CDMFileReaderFactory.h"]
PRE = '''
struct Broken : Reader
{
    using Reader::getDataSlice;
    DataPtr getDataSlice(const std::string& v, size_t p) override { if (p == 2 && v == "p") throw CDMException("broken"); return Reader::getDataSlice(v, p); }
};
'''
DEMO = r'''
    auto r = std::make_shared<Broken>();
    r->dim("x", 2).dim("t", 3, true).var("p", CDM_SHORT, {"x", "t"}, {1, 2, 3, 4, 5, 6});
    expectTrue("throws", throws([&]() { CDMFileReaderFactory::createWriter(r, "netcdf4", "o.nc"); }));
'''
