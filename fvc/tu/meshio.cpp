#include "mesh_io.hpp"
