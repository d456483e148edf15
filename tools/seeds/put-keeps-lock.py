PROP = "C21"
FILE = "src/io/netcdf/NetCDF_CDMReader.cc"
EDITS = [(FILE, '''    OmpScopedLock lock(Nc::getMutex()); // FIXME abusing ncMutex as a little bit of protection for "var.setData"
''', '''    Nc::getMutex().lock(); // FIXME abusing ncMutex as a little bit of protection for "var.setData"
'''), (FILE, '''    if (!data || data->size() == 0)
        return;

    int varid, dimLen;
    nc_type dtype;
    ncCheck(nc_inq_varid''', '''    if (!data || data->size() == 0) {
        Nc::getMutex().unlock();
        return;
    }

    int varid, dimLen;
    nc_type dtype;
    ncCheck(nc_inq_varid'''), (FILE, '''    ncPutValues(data, ncFile->ncId, varid, dtype, static_cast<size_t>(dimLen), start, count);
}
''', '''    ncPutValues(data, ncFile->ncId, varid, dtype, static_cast<size_t>(dimLen), start, count);
    Nc::getMutex().unlock();
}
''')]
NEEDS = "writing a slice that netCDF refuses (beyond the end of a dimension, or through a read-only handle), then any use of a netCDF file"
BREAKS = "the lock around netCDF is kept after the failed call; the next user of a netCDF file waits for ever"
INC = ["fimex/CDMFileReaderFactory.h", "fimex/CDMReaderWriter.h"]
PRE = '''
#include <csignal>
static void hang(int) { static const char m[] = "does not come back\\n"; if (write(1, m, sizeof m - 1)) {} _exit(1); }
'''
DEMO = r'''
    char dir[] = "/tmp/demoXXXXXX";
    if (!mkdtemp(dir)) return 2;
    const std::string f = std::string(dir) + "/a.nc";
    auto r = std::make_shared<Reader>();
    r->dim("x", 2).dim("t", 2, true).var("v", CDM_INT, {"x", "t"}, {1, 2, 3, 4});
    CDMFileReaderFactory::createWriter(r, "netcdf3", f);
    signal(SIGALRM, hang);
    alarm(20);
    {
        auto io = CDMFileReaderFactory::createReaderWriter("netcdf", f);
        auto s = make_shared_array<std::string>(2);
        s[0] = "a"; s[1] = "b";
        // strings do not fit an int variable
        bool failed = throws([&] { io->putDataSlice("v", 0, createData(2, s)); });
        expectTrue("refused", failed);
        expect("after", values(io->getDataSlice("v", 1)), {3, 4});
    }
    unlink(f.c_str());
    rmdir(dir);
'''
