#define DEMO_NS dumbbell
#define DEMO_FILE "demos/dumbbell.cpp"
#define DEMO_UPPER upperLobeCentre
#define DEMO_LOWER lowerLobeCentre
#define DEMO_RANGE lobeSeparation
#include "demo_unit.hpp"
