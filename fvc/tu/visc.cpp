// the viscosity models of the repository, as the parser includes them
#include "mars.hpp"
#include "no_dissipation.hpp"
