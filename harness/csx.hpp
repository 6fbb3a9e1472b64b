// Writing and reading of CSX files shared by the harnesses of the file formats.
#pragma once
#include "mesh.hpp"
#include "infra/parsers/parser_from_csx.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <unistd.h>
// A scratch file that goes away with its path of execution.
struct Scratch { char name[240]; Scratch() { char const* d = getenv("VERIF_SCRATCH"); std::snprintf(name, sizeof name, "%s/vcsx-XXXXXX", d ? d : "/tmp"); int fd = mkstemp(name); if(fd >= 0) close(fd); } ~Scratch() { unlink(name); }
	void write(std::string const& s) const { if(FILE* f = fopen(name, "w")) { fwrite(s.data(), 1, s.size(), f); fclose(f); } } };
// attribute with a number as its value, symbolic or not
inline std::string attr(char const* name, double v) { static int n = 0; return std::string(" ") + name + "=\"" + sym_text(("t" + std::to_string(n++)).c_str(), v) + "\""; }
inline std::string attr(char const* name, char const* v) { return std::string(" ") + name + "=\"" + v + "\""; }
// the axes of a plane in view order, then the axis across
inline int view(int plane, int k) { static int const v[3][3] = { { 1, 2, 0 }, { 2, 0, 1 }, { 0, 1, 2 } }; return v[plane][k]; }
