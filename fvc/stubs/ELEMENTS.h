#pragma once
#include "mesh.hpp"
