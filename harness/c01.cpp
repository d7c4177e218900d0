// C01: grid planners: paths are connected, collision free and reach the goal
#define WHAT VALID
#define A4 L2_4
#define A8 L2_8
#include "c01.inc"
