// Cells: membership, lookup by position, nearest surface.
#include "common.hpp"

// Cells of many surfaces: parallel planes seen along the axis.
static void many() {
  const int n = (int)vf_param("surfaces", 6);
  std::vector<double> c;
  std::vector<Str> names;
  Str all;
  std::vector<int> in;
  for (int i = 0; i < n; i++) {
    c.push_back(vf::real(name_of("c", i), -8, 8));
    names.push_back(name_of("p", i));
    in.push_back((int)vf_choose("sense", 2));
    all += planex(names[i], c[i]);
  }
  Built built;
  const World& w = built.make(
      n,
      [&](const std::vector<int>& order) {
        Str s;
        for (int i : order) s += side(names[i], in[i]);
        return general() + multigroup(1, mgnuclide("n", {{1}, {}, {}, {}, {}})) + materials(material("m", 1, {{"n", 1}})) + surfaces(all) + cells(cell("one", "m", s));
      },
      [](const World& x, std::vector<Str>& got) {
        for (auto& [s, sense] : x.cells.at(0).surface_senses) got.push_back(s->name);
      },
      names);
  const double px = vf_real("px", -8, 8);
  bool contains = true;
  for (int i = 0; i < n; i++) contains &= (px < c[i]) == in[i];
  vf_check(w.cells[0].Contains(Point{px, 1, 2}) == contains, "a cell contains exactly the points on the stated side of each of its surfaces");
  if (!contains) {
    vf_reach("not in the cell");
    return;
  }
  const bool up = vf_choose("direction", 2);
  const size_t asked = vf_choose("asked", 3);
  if (asked == 1) w.cells[0].NearestSurface(Point{px, 1, 2}, Direction{up ? -1. : 1., 0, 0}); // the other way
  if (asked == 2) w.cells[0].NearestSurface(Point{-20, 1, 2}, Direction{up ? 1. : -1., 0, 0}); // elsewhere
  const auto [near, dist] = w.cells[0].NearestSurface(Point{px, 1, 2}, Direction{up ? 1. : -1., 0, 0});
  for (int i = 0; i < n; i++) {
    const double d = up ? c[i] - px : px - c[i];
    if (d > 0) vf_check_le(dist, d, "no bounding surface is nearer");
    if (near->name == names[i]) vf_check(d > 0 ? dist - d < 1e-9 && d - dist < 1e-9 : dist > 1e9, "the distance reported is the distance to the surface reported");
  }
  vf_reach("in the cell");
}

// Worlds of several cells that overlap and leave gaps: the first that contains the point.
static void several() {
  const int n = (int)vf_param("surfaces", 5);
  std::vector<double> c;
  std::vector<int> in;
  Str all, cs;
  for (int i = 0; i < n; i++) {
    c.push_back(vf::real(name_of("c", i), -8, 8));
    in.push_back((int)vf_choose("sense", 2));
    all += planex(name_of("p", i), c[i]);
    cs += cell(name_of("cell", i), "m", side(name_of("p", i), in[i]));
  }
  Built built;
  const World& w = built.make(
      0, [&](const std::vector<int>&) { return general() + multigroup(1, mgnuclide("n", {{1}, {}, {}, {}, {}})) + materials(material("m", 1, {{"n", 1}})) + surfaces(all) + cells(cs); },
      [](const World&, std::vector<Str>&) {}, {});
  vf_check((int)w.cells.size() == n, "every cell of the input is in the world");
  for (int k = 0; k < 1 + (int)vf_param("again", 1); k++) {
    const double px = vf::real(name_of("px", k), -8, 8);
    int first = n;
    for (int i = n - 1; i >= 0; i--)
      if ((px < c[i]) == in[i]) first = i;
    const Cell* found = nullptr;
    try {
      found = &w.FindCellContaining(Point{px, 1, 2});
    } catch (const std::exception&) {
    }
    if (first == n)
      vf_check(found == nullptr, "a point outside every cell is reported as an error");
    else
      vf_check(found == &w.cells.at(first), "the cell found is the first that contains the point");
    vf_reach(first == n ? "no cell" : "a cell");
  }
}

void vf_main() {
  const long what = vf_param("what", 0);
  if (what == 2) return many();
  if (what == 3) return several(); // 0 membership and lookup, 1 nearest surface
  const long ns = vf_param("surfaces", 3);
  const double B = 8;
  // kinds of the surfaces: plane, plane, sphere, cylinder
  double pa = vf_real("pa", -B, B), pb = vf_real("pb", -B, B), r = vf_real("r", 0.25, B), rc = vf_real("rc", 0.25, B);
  const Str names[4] = {"A", "B", "C", "D"};
  const bool planes = vf_param("planes", 0);
  const double pc = planes ? vf_real("pc", -B, B) : 0;
  const Str body[4] = {planex("A", pa), planes ? planex("B", pc) : sphere("B", 0, 0, 0, r), planex("C", pb), cylinderx("D", rc)};
  Str all;
  for (int i = 0; i < ns; i++) all += body[i];
  // the first cell: every surface absent, inside or outside
  int use[4] = {2, 2, 2, 2};
  for (int i = 0; i < ns; i++) use[i] = what == 0 ? (int)vf_choose("sense", 3) : 1 + (int)vf_choose("used", 2); // 0 outside, 1 inside, 2 unused
  Built built;
  std::vector<Str> wanted; // smaller objects first
  for (int i : {0, 1, 2, 3})
    if (i < ns && (i != 1 || planes)) wanted.push_back(names[i]);
  if (!planes && ns > 1) wanted.push_back(names[1]);
  const World& w = built.make(
      (int)ns,
      [&](const std::vector<int>& order) {
        Str s1, s2;
        // second cell: inside all; so that it may overlap or leave gaps
        for (int k : order)
          for (int i = 0; i < ns; i++)
            if (names[i] == wanted[k]) {
              if (use[i] < 2) s1 += side(names[i], use[i] == 1);
              s2 += side(names[i], true);
            }
        return general() + multigroup(1, mgnuclide("n", {{1}, {}, {}, {}, {}})) + materials(material("m", 1, {{"n", 1}})) + surfaces(all) + cells(cell("one", "m", s1) + cell("two", "m", s2));
      },
      [](const World& x, std::vector<Str>& got) {
        for (auto& [s, sense] : x.cells.at(1).surface_senses) got.push_back(s->name);
      },
      wanted);
  const double px = vf_real("px", -B, B), py = vf_real("py", -B, B), pz = vf_real("pz", -B, B);
  const Point p{px, py, pz};
  std::vector<std::shared_ptr<const CSGSurface>> sf;
  for (int i = 0; i < ns; i++) sf.push_back(w.FindSurfaceByName(names[i]));
  if (what == 0) {
    bool in1 = true, in2 = true;
    for (int i = 0; i < ns; i++) {
      const double f = i == 0 ? px - pa : i == 1 && planes ? px - pc : i == 1 ? px * px + py * py + pz * pz - r * r : i == 2 ? px - pb : py * py + pz * pz - rc * rc;
      const bool inside = f < 0;
      if (use[i] < 2 && inside != (use[i] == 1)) in1 = false;
      if (!inside) in2 = false;
    }
    vf_check(w.cells.at(0).Contains(p) == in1, "a cell contains exactly the points on the stated side of each of its surfaces");
    vf_check(w.cells.at(1).Contains(p) == in2, "a cell contains exactly the points on the stated side of each of its surfaces");
    const Cell* found = nullptr;
    try {
      found = &w.FindCellContaining(p);
    } catch (const std::exception&) {
    }
    if (!in1 && !in2) {
      vf_reach("no cell");
      vf_check(found == nullptr, "a point outside every cell is reported as an error");
    } else {
      vf_reach("a cell");
      vf_check(found != nullptr, "a point inside a cell is found");
      vf_check(found == &w.cells.at(in1 ? 0 : 1), "the cell found is the first that contains the point");
      if (in1 && in2) vf_reach("both");
    }
    return;
  }
  double d3[3];
  if (vf_param("fixed", 0)) {
    static const double ds[4][3] = {{1, 0, 0}, {-1, 0, 0}, {0.6, 0.8, 0}, {-0.6, 0, 0.8}};
    const size_t k = vf_choose("direction", 4);
    for (int i = 0; i < 3; i++) d3[i] = ds[k][i];
  } else
    vf_unit("d", d3);
  const Direction d{d3[0], d3[1], d3[2]};
  std::shared_ptr<const CSGSurface> near;
  double dist = -1;
  bool err = false;
  try {
    auto [a, b] = w.cells.at(0).NearestSurface(p, d);
    near = a;
    dist = b;
  } catch (const std::exception&) {
    err = true;
  }
  int n = 0, hit = -1;
  for (int i = 0; i < ns; i++) n += use[i] < 2;
  if (!n) {
    vf_reach("unbounded");
    vf_check(err, "a cell without surfaces has no nearest surface");
    return;
  }
  vf_reach("bounded");
  vf_check(!err, "a bounded cell has a nearest surface");
  for (int i = 0; i < ns; i++)
    if (use[i] < 2 && near == sf[i]) hit = i;
  vf_check(hit >= 0, "the nearest surface bounds the cell");
  for (int i = 0; i < ns; i++) {
    if (use[i] == 2) continue;
    const double t = sf[i]->Distance(p, d);
    if (i == hit) vf_check(dist == t, "the distance reported is the distance to the surface reported");
    vf_check(!(t < dist), "no bounding surface is nearer");
  }
}
