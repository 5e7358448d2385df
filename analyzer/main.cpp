#include "rules.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <iostream>
#include <sstream>

static std::string js(const std::string& s) {
    std::string r = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\')
            r += '\\', r += c;
        else if ((unsigned char)c < 32)
            r += ' ';
        else
            r += c;
    }
    return r + "\"";
}

// usage: gtlcheck <unit.bc> <unit.spec> <out.json> <rule,rule,...> [--only op] [--dump dir]
int main(int argc, char** argv) {
    if (argc < 5)
        return 2;
    std::string only, dumpf;
    for (int i = 5; i + 1 < argc; ++i) {
        if (std::string(argv[i]) == "--only")
            only = argv[i + 1];
        if (std::string(argv[i]) == "--dump")
            dumpf = argv[i + 1];
    }
    LLVMContext             Ctx;
    SMDiagnostic            Err;
    std::unique_ptr<Module> M = parseIRFile(argv[1], Err, Ctx);
    if (!M) {
        std::cerr << "cannot read " << argv[1] << ": " << Err.getMessage().str() << "\n";
        return 2;
    }
    std::vector<OpSpec> ops;
    {
        std::ifstream in(argv[2]);
        std::string   line;
        while (std::getline(in, line)) {
            if (line.empty())
                continue;
            std::istringstream is(line);
            OpSpec             o;
            is >> o.name;
            std::string kv;
            while (is >> kv) {
                auto e = kv.find('=');
                o.kv[kv.substr(0, e)] = kv.substr(e + 1);
            }
            ops.push_back(o);
        }
    }
    std::map<std::string, long> consts;
    for (auto& G : M->globals())
        if (G.getName().starts_with("w_") && G.hasInitializer())
            if (auto* CI = dyn_cast<ConstantInt>(G.getInitializer()))
                consts[G.getName().str()] = CI->getZExtValue();
    std::set<std::string> names;
    for (auto& o : ops)
        names.insert(o.name);
    std::string err;
    if (!normalise(*M, err, names)) {
        std::cerr << "normalise: " << err << "\n";
        return 2;
    }
    if (!dumpf.empty()) {
        std::error_code ec;
        raw_fd_ostream  os(dumpf, ec);
        M->print(os, nullptr);
    }
    Report                   R;
    std::vector<std::string> rules;
    {
        std::istringstream is(argv[4]);
        std::string        r;
        while (std::getline(is, r, ','))
            rules.push_back(r);
    }
    for (auto& o : ops) {
        if (!only.empty() && o.name != only && o.name != "op_" + only)
            continue;
        const Function* F = M->getFunction(o.name);
        if (!F || F->isDeclaration()) {
            R.errors.push_back("operation missing from the unit: " + o.name);
            continue;
        }
        if (o.has("aux"))
            continue;
        for (auto& rn : rules) {
            if (o.has("no_" + rn))
                continue;
            RuleFn fn = findRule(rn);
            if (!fn) {
                std::cerr << "unknown rule " << rn << "\n";
                return 2;
            }
            ACtx c{ *M, *F, o, R, consts, "" };
            fn(c);
            R.opsPerRule[rn].insert(o.name);
        }
    }
    std::ofstream out(argv[3]);
    out << "{\n\"errors\":[";
    for (size_t i = 0; i < R.errors.size(); ++i)
        out << (i ? "," : "") << js(R.errors[i]);
    out << "],\n\"counts\":{";
    bool first = true;
    for (auto& c : R.counts)
        out << (first ? "" : ",") << js(c.first) << ":" << c.second, first = false;
    out << "},\n\"ops\":{";
    first = true;
    for (auto& c : R.opsPerRule) {
        out << (first ? "" : ",") << js(c.first) << ":[";
        bool f2 = true;
        for (auto& n : c.second)
            out << (f2 ? "" : ",") << js(n), f2 = false;
        out << "]", first = false;
    }
    out << "},\n\"facts\":{";
    first = true;
    for (auto& c : R.facts) {
        out << (first ? "" : ",") << js(c.first) << ":[";
        bool f2 = true;
        for (auto& n : c.second)
            out << (f2 ? "" : ",") << js(n), f2 = false;
        out << "]", first = false;
    }
    out << "},\n\"violations\":[";
    first = true;
    for (auto& v : R.violations) {
        out << (first ? "\n" : ",\n") << "{\"prop\":" << js(v.rule) << ",\"op\":" << js(v.op) << ",\"msg\":" << js(v.msg)
            << ",\"where\":" << js(v.where) << "}";
        first = false;
    }
    out << "]}\n";
    return 0;
}
