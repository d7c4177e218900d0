#include "c28.h"
#include <cslibs_path_planning/a_star/AStar.h>
using namespace lib_path;
uint64_t legacy_plan(GridMap2d *map, const std::vector<LegacyQuery> &qs)
{
    AStar a(map); uint64_t h = 1469598103934665603ull;
    for (auto &q : qs) { waypoint_t s, g; s.x = q.sx; s.y = q.sy; g.x = q.gx; g.y = q.gy; bool ok = a.planPath(s, g); h = (h ^ ok) * 1099511628211ull; for (auto &w : *a.getLastPath()) { h = (h ^ (uint64_t) (w.x * 1000 + w.y + 7)) * 1099511628211ull; } }
    return h;
}
