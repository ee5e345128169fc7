#include "../../geos_old.hpp"
