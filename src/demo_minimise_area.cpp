#define DEMO_NS minimise_area
#define DEMO_FILE "demos/minimise_area.cpp"
#define DEMO_UPPER upperLobeCentre
#define DEMO_LOWER lowerLobeCentre
#define DEMO_RANGE lobeSeparation
#include "demo_unit.hpp"
