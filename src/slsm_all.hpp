// The library's headers, in the order its umbrella header uses.
#ifndef SLSM_ALL_HPP
#define SLSM_ALL_HPP
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <random>
#include <sstream>
#include <string>
#include <vector>
#include "Common.h"
#include "Debug.h"
#include "Mesh.h"
#include "Hole.h"
#include "Heap.h"
#include "FastMarchingMethod.h"
#include "LevelSet.h"
#include "Boundary.h"
#include "InputOutput.h"
#include "MersenneTwister.h"
#include "Sensitivity.h"
#endif
