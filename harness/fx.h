// fxdrv: executes commands against the real fimex library and reports what it observed
#pragma once
#include "json.h"

#include "fimex/CDM.h"
#include "fimex/CDMException.h"
#include "fimex/CDMAttribute.h"
#include "fimex/CDMVariable.h"
#include "fimex/CDMDimension.h"
#include "fimex/CDMReader.h"
#include "fimex/Data.h"
#include "fimex/SliceBuilder.h"

#include <functional>
#include <map>
#include <memory>
#include <string>

using namespace MetNoFimex;

typedef std::function<J(const J&)> Handler; // returns the observation object
std::map<std::string, Handler>& handlers();
struct Reg { Reg(const char* n, Handler h) { handlers()[n] = h; } };
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define OP(name) static J CAT(op_, __LINE__)(const J& c); static Reg CAT(reg_, __LINE__)(name, CAT(op_, __LINE__)); static J CAT(op_, __LINE__)(const J& c)

// registry of live readers, reset by "reset"
extern std::map<std::string, CDMReader_p> R;
CDMReader_p rd(const J& c, const char* key = "id");
extern std::string scratch; // scratch directory of this process
std::string tmpfile_(const std::string& suffix);

// integer coding of values
const double V_NAN = 2000000000, V_INF = 2000000001, V_BIG = 2000000002, V_FRAC = 2000000003;
double enc(double v, double scale = 1, bool exact = true);
double dec(double coded);
J encData(DataPtr d, double scale = 1, bool exact = true);
DataPtr mkData(CDMDataType t, const J& vals);
CDMDataType dtype(const std::string& n);
std::string dtypeName(CDMDataType t);
CDMAttribute mkAttr(const std::string& name, const J& spec);
J attrSpec(const CDMAttribute& a);
CDMReader_p mkSource(const J& ds, const std::string& kind, const std::string& path = std::string());
extern std::map<std::string, std::string> files; // files behind file sources
J describe(const CDM& cdm);
J obsData(DataPtr d, double scale = 1, bool exact = true);
// the nth read of a store source from now on fails (0: none)
bool readFails();
void gate(); // a point where threads may be ordered
extern int readFault, readsSeen;
CDM mkCDM(const J& ds, bool withData, std::map<std::string, DataPtr>* store);
