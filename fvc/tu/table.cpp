#include "table.hpp"
#include "additive_data.hpp"
#include "tabular_material_model.hpp"
