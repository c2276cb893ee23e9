#include "material.hpp"
#include "elasticity.hpp"
#include "gamma_law_eos.hpp"
#include "void_eos.hpp"
#include "no_eos.hpp"
#include "user_defined_eos.hpp"
#include "host_user_defined_eos.hpp"
#include "basic_erosion.hpp"
#include "no_erosion.hpp"
