// Surfaces: containment and distance for every kind of surface.
#include "vf.hpp"
#include "CSGSurface.hpp"
#include "Point.hpp"
#include "pugixml.hpp"
#include <cmath>
using vf::text;

void vf_main() {
  const long kind = vf_param("kind", 0); // 0 sphere 1 plane 2 cylinder
  const long what = vf_param("what", 0); // 0 contains 1 distance
  const double B = 10;
  double cx = 0, cy = 0, cz = 0, r = 0, c = 0;
  std::string body;
  if (kind == 0) {
    cx = vf_real("cx", -B, B);
    cy = vf_real("cy", -B, B);
    cz = vf_real("cz", -B, B);
    r = vf_real("r", 0.125, B);
    body = "<sphere name=\"s\"><center x=\"" + text(cx) + "\" y=\"" + text(cy) + "\" z=\"" + text(cz) +
           "\"/><radius r=\"" + text(r) + "\"/></sphere>";
  } else if (kind == 1) {
    c = vf_real("c", -B, B);
    body = "<planex name=\"s\" x=\"" + text(c) + "\"/>";
  } else {
    r = vf_real("r", 0.125, B);
    body = "<cylinderx name=\"s\" r=\"" + text(r) + "\"/>";
  }
  pugi::xml_document doc;
  doc.load_string(("<minimc><surfaces>" + body + "</surfaces></minimc>").c_str());
  auto s = CSGSurface::Create(doc.child("minimc"), "s");
  const double px = vf_real("px", -B, B), py = vf_real("py", -B, B), pz = vf_real("pz", -B, B);
  // signed implicit function, negative inside
  auto f = [&](double x, double y, double z) {
    if (kind == 0) return (x - cx) * (x - cx) + (y - cy) * (y - cy) + (z - cz) * (z - cz) - r * r;
    if (kind == 1) return x - c;
    return y * y + z * z - r * r;
  };
  const double f0 = f(px, py, pz);
  const bool in = s->Contains(Point{px, py, pz});
  if (what == 0) {
    if (in) {
      vf_reach("inside");
      vf_check(f0 < 0, "a contained point is strictly inside");
    } else {
      vf_reach("outside");
      vf_check(f0 >= 0, "a point outside or on the surface is not contained");
    }
    return;
  }
  double dd[3];
  vf_unit("d", dd);
  const double dx = dd[0], dy = dd[1], dz = dd[2];
  if (kind == 0) {
    vf_define("ocd", (px - cx) * dx + (py - cy) * dy + (pz - cz) * dz);
    vf_define("oc2", f0);
  } else if (kind == 2) {
    vf_define("pd", py * dy + pz * dz);
    vf_define("pp", f0);
  }
  vf_assume_ne(f0, 0);
  const Direction d{dx, dy, dz};
  const double t = s->Distance(Point{px, py, pz}, d);
  vf_check(t > 0, "distance is positive");
  if (std::isinf(t)) {
    vf_reach("no crossing");
    // no sign change anywhere ahead
    double u = vf_real("u", 0, 1e3);
    double fu = f(px + u * dx, py + u * dy, pz + u * dz);
    if (in) vf_check_le(fu, 0, "an unreachable surface is never crossed");
    else vf_check_le(0, fu, "an unreachable surface is never crossed");
  } else {
    vf_reach("crossing");
    double ft = f(px + t * dx, py + t * dy, pz + t * dz);
    vf_check_eq(ft, 0, "the reported crossing lies on the surface");
    double u = vf_real("u", 0, 1e3);
    vf_assume_lt(u, t);
    double fu = f(px + u * dx, py + u * dy, pz + u * dz);
    if (in) vf_check_le(fu, 0, "no crossing before the reported distance");
    else vf_check_le(0, fu, "no crossing before the reported distance");
  }
}
