// What the library's generated umbrella header includes.
#include "slsm_all.hpp"
#include "Optimise.h"
