#include "boundary_conditions.hpp"
#include "constant_velocity_bc.hpp"
#include "no_velocity_bc.hpp"
#include "piston_velocity_bc.hpp"
#include "reflected_velocity_bc.hpp"
#include "time_varying_velocity_bc.hpp"
#include "user_defined_velocity_bc.hpp"
#include "zero_velocity_bc.hpp"
#include "constant_stress_bc.hpp"
#include "time_varying_stress_bc.hpp"
#include "user_defined_stress_bc.hpp"
#include "no_stress_bc.hpp"
#include "global_contact.hpp"
#include "preload_contact.hpp"
#include "fracture_stress_bc.hpp"
#include "constant_temp_bc.hpp"
