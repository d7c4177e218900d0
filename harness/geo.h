// Independent geometry of lines and arcs used as the oracle for the shape classes (C21..C24).
#pragma once
#include "mc.h"
#include <Eigen/Core>
#include <cslibs_path_planning/geometry/circle.h>
#include <cslibs_path_planning/geometry/line.h>
#include <cslibs_path_planning/geometry/intersector.h>
#include <cslibs_path_planning/geometry/tangentor.h>
#include <memory>
namespace geo {
using V = Eigen::Vector2d;
static const double T = 2 * M_PI;
static inline double mod(double a) { a = std::fmod(a, T); return a < 0 ? a + T : a; }           // [0, 2 pi)
static inline double adiff(double a, double b) { double d = mod(a - b); return d > M_PI ? T - d : d; }
static inline double dist(const V &a, const V &b) { return std::hypot(a.x() - b.x(), a.y() - b.y()); }
struct Arc {
    V c; double r, s, a; int dir;   // centre, radius, start angle, swept angle >= 0, direction
    V at(double t) const { double phi = s + dir * t; return V(c.x() + r * std::cos(phi), c.y() + r * std::sin(phi)); }   // t: swept so far
    double heading(double t) const { return s + dir * t + dir * M_PI / 2; }
    V start() const { return at(0); }
    V end() const { return at(a); }
    // how far (radians along the circle) the direction of p is outside of the arc; <= 0: inside by that much
    double outside(const V &p) const { double t = mod(dir * (std::atan2(p.y() - c.y(), p.x() - c.x()) - s)); if (t <= a) return -std::min(t, a - t); return std::min(t - a, T - t); }
    double distance(const V &p) const { double d = dist(p, c); if (d > 1e-12 && outside(p) <= 0) return std::fabs(d - r); if (d <= 1e-12) return r; return std::min(dist(p, start()), dist(p, end())); }
};
static inline path_geom::Circle make(const Arc &a) { path_geom::Circle c(a.c, a.r, a.dir); c.setArc(a.s, a.a, a.dir); return c; }
static inline Arc read(const path_geom::Circle &c) { return Arc{c.center(), c.radius(), c.startAngle(), c.getArcAngle(), c.direction()}; }
static inline std::string str(const Arc &a) { return mc::fmt("arc around (%g,%g) radius %g from %.4f over %.4f %s", a.c.x(), a.c.y(), a.r, a.s, a.a, a.dir > 0 ? "left" : "right"); }
static inline std::string str(const V &p) { return mc::fmt("(%.7g,%.7g)", p.x(), p.y()); }
static inline std::string line(const V &a, const V &b) { return "line " + str(a) + "-" + str(b); }
static inline double segdist(const V &p, const V &a, const V &b) { double dx = b.x() - a.x(), dy = b.y() - a.y(), l = dx * dx + dy * dy; double t = l > 0 ? ((p.x() - a.x()) * dx + (p.y() - a.y()) * dy) / l : 0; t = std::min(1.0, std::max(0.0, t)); return dist(p, V(a.x() + t * dx, a.y() + t * dy)); }
// the geometry code prints progress to the standard output
struct Mute { Mute() { std::cout.setstate(std::ios::failbit); std::cerr.setstate(std::ios::failbit); } };
static Mute mute_;
}
