#define DEMO_NS bimodal
#define DEMO_FILE "demos/bimodal.cpp"
#define DEMO_UPPER uppergravityCutOff
#define DEMO_LOWER lowergravityCutOff
#define DEMO_RANGE gravityRange
#include "demo_unit.hpp"
