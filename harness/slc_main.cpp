// The shader compiler of the current tree (libs/slcomp): compiles each argument IN.sl to OUT.slx
#include <aqsis/slcomp/icodegen.h>
#include <aqsis/slcomp/libslparse.h>
#include <aqsis/util/exception.h>
#include <fstream>
#include <iostream>
#include <sstream>
using namespace Aqsis;
int main(int argc, char** argv) {
    for(int i = 1; i + 1 < argc; i += 2) {
        std::ifstream f(argv[i]); std::stringstream s; s << f.rdbuf(); ResetParser(); CqCodeGenVM g;
        try { if(!Parse(s, argv[i], std::cerr)) { std::cerr << "cannot parse " << argv[i] << "\n"; return 1; } g.OutputTree(GetParseTree(), argv[i + 1]); }
        catch(const std::exception& e) { std::cerr << argv[i] << ": " << e.what() << "\n"; return 1; }
    }
    return 0;
}
