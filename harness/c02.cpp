// C02: grid planners: a path whenever one exists, and a cheapest one
#define WHAT COST
#define A4 L1_4
#define A8 LI_8
#include "c01.inc"
