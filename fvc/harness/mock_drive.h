// stands in for mesh_io.hpp in the harness of the driver: meshes are records
#ifndef FIERRO_IO_H
#define FIERRO_IO_H
#include "matar.h"
#include "state.hpp"
#include "simulation_parameters.hpp"
#include "region.hpp"
#include "string_utils.hpp"
#include <map>
#include <memory>
#include <cstring>
#include <sys/stat.h>
#include <iostream>
#include <regex>
#include <fstream>
#include <sstream>
#include <vector>
#include <string>
#include <iomanip>
#include <chrono>
void fvc_say(const std::string &);
class MeshReader {
    std::string f;
public:
    void set_mesh_file(char *p) { f = p; }
    void read_mesh(swage::Mesh &, State_t &, mesh_input_t &, int) { fvc_say("read the mesh " + f); }
};
class MeshBuilder {
public:
    template <class A, class B, class C> void build_mesh(swage::Mesh &, A &, B &, C &, SimulationParameters_t &) { fvc_say("build the mesh"); }
};
class MeshWriter {
public:
    template <class... A> void write_mesh(A &&...) {}
};
#endif
