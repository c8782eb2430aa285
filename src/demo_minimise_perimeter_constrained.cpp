#define DEMO_NS minimise_perimeter_constrained
#define DEMO_FILE "demos/minimise_perimeter_constrained.cpp"
#define DEMO_UPPER upperLobeCentre
#define DEMO_LOWER lowerLobeCentre
#define DEMO_RANGE lobeSeparation
#include "demo_unit.hpp"
