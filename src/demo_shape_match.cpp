#define DEMO_NS shape_match
#define DEMO_FILE "demos/shape_match.cpp"
#define DEMO_UPPER uppergravityCutOff
#define DEMO_LOWER lowergravityCutOff
#define DEMO_RANGE gravityRange
#include "demo_unit.hpp"
