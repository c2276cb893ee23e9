// stands in for mesh_io.hpp in the harness of the time loops: files are records
#ifndef FIERRO_IO_H
#define FIERRO_IO_H
#include "matar.h"
#include "state.hpp"
#include "simulation_parameters.hpp"
#include "region.hpp"
#include "string_utils.hpp"
#include <map>
#include <memory>
#include <cstring>
#include <sys/stat.h>
#include <iostream>
#include <regex>
#include <fstream>
#include <sstream>
#include <vector>
#include <string>
#include <iomanip>
#include <chrono>
void fvc_written(State_t &, double time, size_t id);
class MeshWriter {
public:
    MeshWriter() {}
    void write_mesh(swage::Mesh &, State_t &State, SimulationParameters_t &, double, double time_value, CArray<double>, std::vector<node_state>, std::vector<gauss_pt_state>, std::vector<material_pt_state>, const size_t solver_id) { fvc_written(State, time_value, solver_id); }
};
#endif
