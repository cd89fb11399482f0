// Directions: rotation by a polar cosine and azimuth, isotropic sampling,
// cosine-weighted (surface flux) sampling.
#include "common.hpp"

static void unit(const Direction& d, const char* msg) { vf_check_eq(d.Dot(d), 1, msg); }

void vf_main() {
  const long what = vf_param("what", 0);
  if (what == 0 || what == 3) { // rotation
    double a[3];
    vf_unit("a", a);
    const Direction d{a[0], a[1], a[2]};
    const double mu = what == 3 ? (vf_choose("sign", 2) ? 1. : -1.) : vf_real("mu", -1, 1);
    const double phi = vf_real("phi", 0, 2 * constants::pi);
    const Direction n{d, mu, phi};
    unit(n, "a rotated direction has unit length");
    vf_check_eq(n.Dot(d), mu, "the cosine between old and new direction is the sampled cosine");
    vf_reach("rotated");
    if (what == 0) {
      // a second azimuth: the angle between the transverse parts is the difference
      const double psi = vf_real("psi", 0, 2 * constants::pi);
      const Direction m{d, mu, psi};
      const double expect = mu * mu + (1 - mu * mu) * (std::cos(phi) * std::cos(psi) + std::sin(phi) * std::sin(psi));
      vf_check_eq(n.Dot(m), expect, "the azimuth turns the direction about the old one at unit rate");
      // and the sense of rotation about d is fixed: d . (n x m) = (1-mu^2) sin(psi-phi) up to a global sign
      const double triple = d.Dot(n.Cross(m));
      const double s = (1 - mu * mu) * (std::sin(psi) * std::cos(phi) - std::cos(psi) * std::sin(phi));
      vf_check_eq(triple * triple, s * s, "the azimuth turns the direction about the old one at unit rate");
    }
  } else if (what == 1) { // isotropic
    RNG rng{(RNG::result_type)(1 + vf_choose("seed", 3))}, copy = rng;
    const Direction n{rng};
    const double u = U(copy), v = U(copy);
    unit(n, "an isotropic direction has unit length");
    vf_check_eq(X(n) * X(n), (2 * u - 1) * (2 * u - 1), "one coordinate of an isotropic direction is uniform in [-1,1]");
    const double c = std::cos(2 * constants::pi * v), s2 = 1 - X(n) * X(n);
    vf_check_eq(Y(n) * Y(n), s2 * c * c, "the azimuth of an isotropic direction is uniform");
    vf_check(rng == copy, "isotropic sampling uses two random numbers");
    // mirrored and turned by other draws
    const double w = U(copy), t = U(copy);
    const Direction m{rng};
    if (vf_choose("pair", 2)) {
      vf_assume_eq(w, 1 - u);
      vf_check_eq(X(m), -X(n), "one coordinate of an isotropic direction is uniform in [-1,1]");
    } else {
      vf_assume_eq(w, u);
      vf_check_eq(X(m), X(n), "one coordinate of an isotropic direction is uniform in [-1,1]");
    }
    const double ct = std::cos(2 * constants::pi * t), st = std::sin(2 * constants::pi * t), s = std::sin(2 * constants::pi * v);
    vf_check_eq(Y(n) * Y(m) + Z(n) * Z(m), s2 * (c * ct + s * st), "the azimuth of an isotropic direction is uniform");
    const double r = Y(n) * Z(m) - Z(n) * Y(m), q = s2 * (c * st - s * ct);
    vf_check_eq(r * r, q * q, "the azimuth of an isotropic direction is uniform");
    vf_reach("isotropic");
  } else if (what == 6) { // a particle's deflection
    double a[3];
    vf_unit("a", a);
    const Direction d{a[0], a[1], a[2]};
    const double mu = vf_real("mu", -1, 1), e = vf_real("e", 0, 20);
    const Point at{vf_real("x", -9, 9), 0.5, -0.25};
    Particle p{at, d, ContinuousEnergy{1}, Particle::Type::neutron, (RNG::result_type)(1 + vf_choose("seed", 2))};
    RNG copy = p.rng;
    const double u = U(copy), phi = 2 * constants::pi * u;
    if (!vf_param("any", 0)) { // replayable
      vf_assume_eq(u, vf_choose("turn", 2) ? 0.3125 : 0.875);
      vf_assume_le(mu * mu, 0.75);
    }
    p.Scatter(mu, ContinuousEnergy{e});
    const Direction n = p.GetDirection(), n0{d, mu, 0};
    unit(n, "a deflected particle has a direction of unit length");
    vf_check_eq(n.Dot(d), mu, "the cosine of the deflection is the one asked for");
    vf_check_eq(n.Dot(n0), mu * mu + (1 - mu * mu) * std::cos(phi), "the azimuth of a deflection is uniform");
    const double triple = d.Dot(n0.Cross(n)), s = (1 - mu * mu) * std::sin(phi);
    vf_check_eq(triple * triple, s * s, "the azimuth of a deflection is uniform");
    vf_check(std::get<ContinuousEnergy>(p.GetEnergy()) == e, "the energy after a deflection is the one asked for");
    vf_check(p.GetPosition() == at, "a deflection does not move the particle");
    vf_check(p.rng == copy, "a deflection uses one random number");
    vf_reach("deflected");
  } else if (what == 2) { // normalisation from components and from XML
    const double x = vf_real("x", -20, 20), y = vf_real("y", -20, 20), z = vf_real("z", -20, 20);
    vf_assume_lt(1e-6, x * x + y * y + z * z);
    const Direction n{x, y, z};
    const double len = std::sqrt(x * x + y * y + z * z);
    unit(n, "a direction given by components is normalised");
    vf_check_eq(X(n) * len, x, "normalising keeps the direction");
    vf_check_eq(Y(n) * len, y, "normalising keeps the direction");
    vf_check_eq(Z(n) * len, z, "normalising keeps the direction");
    pugi::xml_document d;
    d.load_string(point_tag("p", x, y, z).c_str());
    const Direction m{d.child("p")};
    vf_check_eq(X(m), X(n), "a direction in the input file is normalised");
    vf_check_eq(Y(m), Y(n), "a direction in the input file is normalised");
    vf_check_eq(Z(m), Z(n), "a direction in the input file is normalised");
    vf_reach("normalised");
  } else if (what == 4) { // surface flux
    double a[3];
    vf_unit("a", a);
    pugi::xml_document doc;
    doc.load_string(("<direction><isotropic-flux x=\"" + text(a[0]) + "\" y=\"" + text(a[1]) + "\" z=\"" + text(a[2]) + "\"/></direction>").c_str());
    auto dist = Distribution<Direction>::Create(doc.child("direction"));
    RNG rng{(RNG::result_type)(1 + vf_choose("seed", 3))}, copy = rng;
    const Direction n = dist->Sample(rng);
    const double u = U(copy), v = U(copy);
    const Direction ref{a[0], a[1], a[2]};
    const double mu = n.Dot(ref);
    unit(n, "a surface-flux direction has unit length");
    vf_check_le(0, mu, "a surface-flux direction points forward");
    vf_check_eq(mu * mu, u, "the squared cosine of a surface-flux direction is uniform");
    vf_check(rng == copy, "surface-flux sampling uses two random numbers");
    // turned by another draw
    if (vf_param("turn", 0)) {
      const double w = U(copy), t = U(copy);
      vf_assume_eq(w, u);
      const Direction m = dist->Sample(rng);
      const double two_pi = 2 * constants::pi;
      vf_check_eq(n.Dot(m), u + (1 - u) * (std::cos(two_pi * v) * std::cos(two_pi * t) + std::sin(two_pi * v) * std::sin(two_pi * t)), "the azimuth of a surface-flux direction is uniform");
      vf_reach("turned");
    }
    vf_reach("flux");
  } else { // vector algebra
    const double x = vf_real("x", -20, 20), y = vf_real("y", -20, 20), z = vf_real("z", -20, 20);
    const double u = vf_real("u", -20, 20), v = vf_real("v", -20, 20), t = vf_real("t", -20, 20);
    const double s = vf_real("s", 0.1, 20);
    const Point p{x, y, z}, q{u, v, t};
    vf_check_eq(p.Dot(q), x * u + y * v + z * t, "dot product");
    const Point c = p.Cross(q);
    vf_check_eq(X(c), y * t - z * v, "cross product");
    vf_check_eq(Y(c), z * u - x * t, "cross product");
    vf_check_eq(Z(c), x * v - y * u, "cross product");
    Point a = p;
    a += q;
    vf_check(a == p + q, "sum");
    vf_check_eq(X(p - q), x - u, "difference");
    vf_check_eq(Y(p - q), y - v, "difference");
    vf_check_eq(Z(p - q), z - t, "difference");
    vf_check_eq(X(p * s), x * s, "scaling");
    vf_check_eq(Y(s * p), y * s, "scaling");
    vf_check_eq(Z(p * s), z * s, "scaling");
    vf_check_eq(Z(p / s) * s, z, "scaling");
    vf_check_eq(Y(p / s) * s, y, "scaling");
    vf_reach("algebra");
  }
}
