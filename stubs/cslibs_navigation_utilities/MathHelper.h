// Stand-in for the header of the (not installed) package cslibs_navigation_utilities.
// Only the contract the repository relies on: angle wrapping, angle difference, 2d segment intersection.
#ifndef VERIF_STUB_MATHHELPER_H
#define VERIF_STUB_MATHHELPER_H
#include <cmath>
#include <utility>
#include <iostream>
#include <vector>
#include <algorithm>
#include <Eigen/Core>
#include <Eigen/Geometry>

// 0: wrap into [-pi,pi)   1: wrap into (-pi,pi].  An environment choice of the explorer.
extern int verif_angle_mode;

class MathHelper
{
public:
    static double AngleClamp(double angle)
    {
        if (!(std::fabs(angle) < 1e12)) return angle;   // not finite / absurd: nothing to wrap
        double a = std::fmod(angle + M_PI, 2 * M_PI);
        if (a < 0) a += 2 * M_PI;
        a -= M_PI;
        if (verif_angle_mode == 1) { if (a <= -M_PI) a = M_PI; }
        else if (a >= M_PI) a = -M_PI;
        return a;
    }
    static double NormalizeAngle(double angle) { return AngleClamp(angle); }
    static double AngleDelta(double from, double to) { return AngleClamp(to - from); }
    template <class V> static double Angle(const V &v) { return std::atan2((double) v(1), (double) v(0)); }
    template <class V> static double Angle(const V &a, const V &b)
    { return AngleClamp(std::atan2((double) b(1), (double) b(0)) - std::atan2((double) a(1), (double) a(0))); }
    template <class V> static double distance(const V &a, const V &b) { return (a - b).norm(); }
};

typedef std::pair<double, double> point2D;

// Intersection of the segments ab and cd; s and t are the parameters on ab and cd.
inline bool segmentIntersection(const point2D &a, const point2D &b, const point2D &c, const point2D &d,
                                point2D &pt, double &s, double &t, double tol = 0.0)
{
    double rx = b.first - a.first, ry = b.second - a.second;
    double qx = d.first - c.first, qy = d.second - c.second;
    double den = rx * qy - ry * qx;
    if (std::fabs(den) < 1e-12) return false;
    double wx = c.first - a.first, wy = c.second - a.second;
    s = (wx * qy - wy * qx) / den;
    t = (wx * ry - wy * rx) / den;
    if (s < -tol || s > 1 + tol || t < -tol || t > 1 + tol) return false;
    pt.first = a.first + s * rx;
    pt.second = a.second + s * ry;
    return true;
}
inline bool segmentIntersection(const point2D &a, const point2D &b, const point2D &c, const point2D &d, point2D &pt)
{ double s, t; return segmentIntersection(a, b, c, d, pt, s, t, 0.0); }
#endif
