PROP = "C01"
FILE = "src/CDM.cc"
OLD = '''    pimpl_->variables.erase(remove_if(pimpl_->variables.begin(), pimpl_->variables.end(), CDMNameEqual(variableName)), pimpl_->variables.end());
    pimpl_->attributes.erase(variableName);
'''
NEW = '''    const VarVec::iterator v = find_if(pimpl_->variables.begin(), pimpl_->variables.end(), CDMNameEqual(variableName));
    if (v == pimpl_->variables.end())
        return;
    pimpl_->variables.erase(v);
    pimpl_->attributes.erase(variableName);
'''
NEEDS = "a rename of a variable with attributes, followed by adding a new variable with the old name"
BREAKS = "the new variable starts with the attributes of the renamed one"
DEMO = r'''
    CDM cdm;
    cdm.addDimension(CDMDimension("x", 2));
    cdm.addVariable(CDMVariable("a", CDM_INT, {"x"}));
    cdm.addAttribute("a", CDMAttribute("units", "m"));
    cdm.renameVariable("a", "b");
    expectTrue("attribute moved", cdm.getUnits("b") == "m");
    cdm.addVariable(CDMVariable("a", CDM_INT, {"x"}));
    expectTrue("new variable has no attributes", cdm.getAttributes("a").empty());
    cdm.removeVariable("b");
    expectTrue("removed", cdm.getAttributes("b").empty() && !cdm.hasVariable("b"));
'''
