// interface of the planners of the legacy library (separate translation unit: both libraries define a class named Node)
#pragma once
#include <string>
#include <vector>
#include <cstdint>
namespace lib_path { class GridMap2d; }
struct LegacyQuery { int sx, sy, gx, gy; };
uint64_t legacy_plan(lib_path::GridMap2d *map, const std::vector<LegacyQuery> &q);
