#define DEMO_NS bimodal_brolly
#define DEMO_FILE "demos/bimodal_brolly.cpp"
#define DEMO_UPPER uppergravityCutOff
#define DEMO_LOWER lowergravityCutOff
#define DEMO_RANGE gravityRange
#include "demo_unit.hpp"
