// C37: drawing maps and curves shows what is there, leaves the rest of the picture and the drawn things alone
#include "rs.h"
#include <opencv2/opencv.hpp>
#include <opencv2/imgproc/imgproc_c.h>
#include <cslibs_path_planning/../../src/ReedsShepp/CurveRenderer.cpp>
using namespace rs; using mc::Dec;
// no windows here: what is shown is recorded
static int shown = 0, waited = 0; static cv::Mat showing;
void cv::namedWindow(const cv::String &, int) {}
void cv::imshow(const cv::String &, cv::InputArray a) { ++shown; showing = a.getMat().clone(); }
int cv::waitKey(int) { ++waited; return -1; }
static const cv::Vec3b BLANK(7, 9, 8);
static bool same(const cv::Mat &a, const cv::Mat &b) { return a.size() == b.size() && a.type() == b.type() && (a.empty() || cv::norm(a, b, cv::NORM_INF) == 0); }
static bool near(const cv::Vec3b &a, double r, double g, double b, double tol) { return std::fabs(a[0] - r) <= tol && std::fabs(a[1] - g) <= tol && std::fabs(a[2] - b) <= tol; }
static void maps(uint64_t i, int w, int h)
{
    static const uint8_t V[] = {0, 49, 100, 255}; Dec d(i); SimpleGridMap2d m(w, h, 0.5); m.setLowerThreshold(50); m.setUpperThreshold(200); std::string s; std::vector<uint8_t> c; for (int k = 0; k < w * h; ++k) { c.push_back(V[d(4)]); m.setValue(k % w, k / w, c[k]); s += mc::fmt("%d ", c[k]); }
    for (int more = 0; more < 4; ++more) { cv::Mat img(h + (more & 1) * 3, w + (more & 2), CV_8UC3, cv::Scalar(BLANK[0], BLANK[1], BLANK[2])); mc::describe(mc::fmt("map of %dx%d (%s) on a picture of %dx%d", w, h, s.c_str(), img.cols, img.rows)); CurveRenderer r(img); r.draw_map(&m); mc::exec(); mc::step(); mc::nontrivial();
        for (int y = 0; y < img.rows; ++y) for (int x = 0; x < img.cols; ++x) { int my = img.rows - 1 - y; cv::Vec3b want = x < w && my < h ? (c[my * w + x] < 50 ? cv::Vec3b(255, 255, 255) : cv::Vec3b(255 - c[my * w + x], 0, 0)) : BLANK, got = img.at<cv::Vec3b>(y, x); if (got != want) mc::fail("map of %dx%d (%s) on a picture of %dx%d: pixel (%d,%d) is (%d,%d,%d), not (%d,%d,%d)", w, h, s.c_str(), img.cols, img.rows, x, y, got[0], got[1], got[2], want[0], want[1], want[2]); }
        for (int k = 0; k < w * h; ++k) if (m.getValue(k % w, k / w) != c[k]) mc::fail("drawing a map changes it"); mc::Hash hh; for (uint8_t v : c) hh.u(v); mc::state(hh.h); }
}
static std::vector<Pose2d> points(Curve &c) { std::vector<Pose2d> v; c.reset_iteration(); while (c.has_next()) v.push_back(c.next()); return v; }
static bool equal(const std::vector<Pose2d> &a, const std::vector<Pose2d> &b) { if (a.size() != b.size()) return false; for (size_t k = 0; k < a.size(); ++k) if (a[k].x != b[k].x || a[k].y != b[k].y || a[k].theta != b[k].theta) return false; return true; }
static const char *WORDS[] = {"LSL", "RSR", "LSR", "RSL", "|LSL", "R|SR", "LS|L", "|R|S|L", "LRL", "R|L|R", "LR|L", "LRLR", "R|L(b)R(b)|L"};
static void curves(uint64_t i)
{
    Dec d(i); int wd = d(13), gd = d(8), gh = d(4), sh = d(4), far = d(4), big = d(2); double dist = (double[]){9, 25, 55, 90}[far]; P st{100.3, 110.6, sh * 1.7 + 0.2}, go{st.x + dist * std::cos(gd * TAU / 8 + 0.1), st.y + dist * std::sin(gd * TAU / 8 + 0.1), gh * 1.45 - 1};
    SimpleGridMap2d m(200, 220, 0.25); m.setLowerThreshold(50); m.setUpperThreshold(200); double R = big ? 26 : 13; CurveGenerator g; g.parse(WORDS[wd]); g.set_circle_radius(R * 0.25); g.set_max_waypoint_distance(1); Segs w; spell(WORDS[wd], w); bool e; auto sols = solve(w, st, go, R, Costs(), e);
    std::string what = mc::fmt("%s of radius %g from (%.1f,%.1f,%.2f) to (%.1f,%.1f,%.2f)", WORDS[wd], R, st.x, st.y, st.th, go.x, go.y, go.th); mc::describe(what); std::unique_ptr<Curve> c(g.find_path(Pose2d(st.x, st.y, st.th), Pose2d(go.x, go.y, go.th), &m, true)); mc::exec(); if (!c) return; mc::nontrivial();
    auto pts = points(*c); double weight = c->weight(); cv::Mat none; { CurveRenderer r(none); r.draw(c.get()); r.snapshot_in_new_window(c.get()); if (shown || !none.empty()) mc::fail("%s: something is shown without a picture", what.c_str()); }
    cv::Mat img(220, 200, CV_8UC3, cv::Scalar(BLANK[0], BLANK[1], BLANK[2])), again = img.clone(), snap = img.clone(), over; cv::Scalar bg = gh & 1 ? cv::Scalar(80, 30, 30, 0.4) : cv::Scalar(10, 120, 240); { CurveRenderer r(img); if (gh & 1) r.draw(c.get()); else r.draw(c.get(), bg); } mc::step();
    if (c->weight() != weight || !equal(points(*c), pts) || c->start().x != Pose2d(st.x, st.y, 0).x || c->goal().y != Pose2d(go.x, go.y, 0).y) mc::fail("%s: drawing the curve changes it", what.c_str());
    c->reset_iteration(); for (size_t k = 0; k < pts.size() / 2; ++k) c->next(); { CurveRenderer r(again); r.draw(c.get(), bg); } if (!same(img, again)) mc::fail("%s: drawing the curve again, in the middle of its waypoints, looks different", what.c_str());
    { CurveRenderer r(snap); r.snapshot_in_new_window(c.get()); if (shown != 1 || waited != 1) mc::fail("%s: the snapshot is shown %d times", what.c_str(), shown); if (!same(snap, showing) || ((gh & 1) && !same(snap, img))) mc::fail("%s: the snapshot differs from the drawing", what.c_str()); } shown = waited = 0;
    over = img.clone(); { CurveRenderer r(over); r.display_overlay(c.get()); } if (same(img, over)) mc::fail("%s: the overlay shows nothing", what.c_str()); if (!same(img.rowRange(110, 220), over.rowRange(110, 220)) || !same(img.colRange(0, 18), over.colRange(0, 18))) mc::fail("%s: the overlay reaches beyond its corner", what.c_str());
    // what may be drawn on: waypoints, the circles and lines of the curve, the three arrows and the notes beside the circles
    std::vector<P> arrows{st, go}; auto inside = [&](double x, double y) { return x >= 3 && y >= 3 && x < 197 && y < 217; }; auto px = [&](double x, double y) { return img.at<cv::Vec3b>(std::min(219, std::max(0, (int) std::floor(220 - y + 0.5))), std::min(199, std::max(0, (int) std::floor(x)))); };
    auto close = [&](double x, double y, double r, double g, double b) { for (int dy = -2; dy <= 2; ++dy) for (int dx = -2; dx <= 2; ++dx) if (near(px(x + dx, y + dy), r, g, b, 60)) return true; return false; };
    auto at = [&](const P &p, double along) { return P{p.x + along * std::cos(p.th), p.y + along * std::sin(p.th), 0}; };
    for (double a = 2; a < 18; a += 3) { P p = at(st, a); if (inside(p.x, p.y) && !close(p.x, p.y, 50, 200, 50)) mc::fail("%s: the start's arrow is not drawn at (%.1f,%.1f)", what.c_str(), p.x, p.y); p = at(go, a); if (inside(p.x, p.y) && dist > 40 && !close(p.x, p.y, 50, 50, 200)) mc::fail("%s: the goal's arrow is not drawn at (%.1f,%.1f)", what.c_str(), p.x, p.y); }
    for (auto &p : pts) if (inside(p.x, p.y) && near(px(p.x, p.y), BLANK[0], BLANK[1], BLANK[2], 0)) mc::fail("%s: waypoint (%.1f,%.1f) is not drawn", what.c_str(), p.x, p.y);
    // the solution drawn, by its weight (mirrored ones may weigh the same)
    if (sols.empty() || e) return; std::vector<const Sol *> mine; for (auto &s : sols) if (std::fabs(s.weight - weight) < tolw(s.weight)) { P p = st; bool on = true; for (auto &sg : s.segs) { for (double f : {0.5, 1.0}) { P q = advance(p, sg, sg.len * f, R); bool hit = false; for (auto &w : pts) hit |= std::hypot(w.x - q.x, w.y - q.y) < 3; on &= hit; } p = advance(p, sg, sg.len, R); } if (on) mine.push_back(&s); }
    if (mine.size() != 1) return; std::vector<P> centres; std::vector<std::pair<P, P>> lines; P p = st; for (auto &sg : mine[0]->segs) { P q = advance(p, sg, sg.len, R); if (sg.steer) centres.push_back({p.x - R * sg.steer * sin(p.th), p.y + R * sg.steer * cos(p.th), 0}); else lines.push_back({p, q}); p = q; }
    auto seg = [](double x, double y, const P &a, const P &b) { double l = (b.x - a.x) * (b.x - a.x) + (b.y - a.y) * (b.y - a.y), t = l > 0 ? std::max(0., std::min(1., ((x - a.x) * (b.x - a.x) + (y - a.y) * (b.y - a.y)) / l)) : 0; return std::hypot(x - a.x - t * (b.x - a.x), y - a.y - t * (b.y - a.y)); };
    auto busy = [&](double x, double y, double more) { for (auto &a : arrows) if (std::hypot(x - a.x, y - a.y) < 24 + more) return true; for (auto &w : pts) if (std::hypot(x - w.x, y - w.y) < 10 + more) return true; for (auto &c : centres) if (x > c.x - 3 && x < c.x + 70 && y > c.y - 6 - more && y < c.y + 12 + more) return true; return false; };
    for (int y = 1; y < 220; ++y) for (int x = 0; x < 200; ++x) { if (busy(x, y, 0)) continue; double dd = 1e9; for (auto &c : centres) dd = std::min(dd, std::fabs(std::hypot(x - c.x, y - c.y) - R)); for (auto &l : lines) dd = std::min(dd, seg(x, y, l.first, l.second)); if (dd > 6 && img.at<cv::Vec3b>(220 - y, x) != BLANK) mc::fail("%s: pixel (%d,%d), far from the curve, is drawn on", what.c_str(), x, y); }
    for (auto &c : centres) for (int k = 0; k < 24; ++k) { double x = c.x + R * std::cos(k * TAU / 24), y = c.y + R * std::sin(k * TAU / 24); if (!inside(x, y) || busy(x, y, 3)) continue; if (!close(x, y, bg[0], bg[1], bg[2])) mc::fail("%s: the circle about (%.1f,%.1f) is not drawn at (%.1f,%.1f)", what.c_str(), c.x, c.y, x, y); }
    mc::state(mc::Hash().q(weight, 1e-2).u(pts.size()).h);
}
void mc_setup()
{
    for (auto wh : {std::make_pair(1, 1), {2, 1}, {1, 3}, {2, 2}, {3, 2}, {2, 3}}) { int w = wh.first, h = wh.second; mc::family(mc::fmt("every map of %dx%d", w, h), mc::ipow(4, w * h), [=](uint64_t i) { maps(i, w, h); }); }
    if (mc::thorough) mc::family("every map of 4x2", mc::ipow(4, 8), [](uint64_t i) { maps(i, 4, 2); });
    mc::family("curves", 13 * 8 * 4 * 4 * 4 * 2, [](uint64_t i) { if (!mc::thorough && i % 3) return; curves(i); }, 16);
    mc::bound("every content (four values) of maps up to 3x2 on pictures of four sizes; curves of 13 words, two radii, %s combinations of four start headings, 32 goal positions and four goal headings", mc::thorough ? "all" : "a third of the");
    mc::assumption("lines may be up to 2 pixels off and blend with what is below; the notes beside the circles and the overlay are only checked for their place");
}
