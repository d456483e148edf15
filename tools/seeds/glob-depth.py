PROP = "C25"
FILE = "src/FileUtils.cc"
OLD = '''    if (reg.find("**") == std::string::npos) {'''
NEW = '''    if (reg.find("**/") == std::string::npos) {'''
NEEDS = "a pattern with ** that is not followed by /, and matching files below the first directory"
BREAKS = "files in deeper directories are not found"
INC = ["fimex/FileUtils.h"]
PRE = '''#include <fstream>
#include <sys/stat.h>
'''
DEMO = r'''
    char d[] = "/tmp/globdemoXXXXXX";
    if (!mkdtemp(d)) return 2;
    const std::string b(d);
    mkdir((b + "/a").c_str(), 0700);
    mkdir((b + "/a/b").c_str(), 0700);
    std::ofstream(b + "/x.nc").put('x');
    std::ofstream(b + "/a/y.nc").put('x');
    std::ofstream(b + "/a/b/z.nc").put('x');
    std::vector<std::string> f;
    globFiles(f, b + "/**.nc");
    expectTrue("all levels", f.size() == 3);
    unlink((b + "/x.nc").c_str()), unlink((b + "/a/y.nc").c_str()), unlink((b + "/a/b/z.nc").c_str());
    rmdir((b + "/a/b").c_str()), rmdir((b + "/a").c_str()), rmdir(b.c_str());
'''
