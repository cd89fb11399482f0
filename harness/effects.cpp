// Only flights carry an indirect effect of a total cross section perturbation:
// whatever else happens to a particle between two flights adds none.
#include "common.hpp"

void vf_main() {
  const int G = 2;
  std::vector<double> ca, cb;
  for (int g = 0; g < G; g++) {
    ca.push_back(vf::real(name_of("a", g), 0.125, 8));
    cb.push_back(vf::real(name_of("b", g), 0.125, 8));
  }
  MG a, b;
  a.capture = ca;
  b.capture = cb;
  const double N[2] = {vf::real("N0", 0.125, 4), vf::real("N1", 0.125, 4)};
  const bool mixed = vf_choose("mixed", 2);
  Str mat = mixed ? material("m0", N[0], {{"a", 1}, {"b", 1}}) : material("m0", N[0], {{"a", 1}});
  mat += material("m1", N[1], {{"b", 1}});
  Doc doc(general("surface") + multigroup(G, mgnuclide("a", a) + mgnuclide("b", b)) + materials(mat) + surfaces(planex("p", 0)) +
          cells(cell("x0", "m0", side("p", true)) + cell("x1", "m1", side("p", false))) + "<perturbations><total name=\"A\" nuclide=\"a\"/><total name=\"B\" nuclide=\"b\"/></perturbations>");
  const World w{doc.root};
  const PerturbationSet set{doc.root.child("perturbations"), w};
  Particle::transport_method = TransportMethod::Create(doc.root, w);
  const Perturbation* per[2] = {&set.FindPerturbationByName("A"), &set.FindPerturbationByName("B")};
  const Cell* cells[2] = {w.cells[0].name == "x0" ? &w.cells[0] : &w.cells[1], w.cells[0].name == "x0" ? &w.cells[1] : &w.cells[0]};
  const int n = (int)vf_param("flights", 2);
  int in = (int)vf_choose("cell", 2), g = 0;
  Particle p{Point{0, 0, 0}, Direction{0.6, 0, 0.8}, Group{(unsigned)g + 1}, Particle::Type::neutron, 5, cells[in]};
  p.SetPerturbations(set);
  double want[2] = {};
  bool moved = false, turned = false;
  auto same = [&] {
    for (int j = 0; j < 2; j++) vf_check_eq(p.GetIndirectEffect(per[j]), want[j], "only flights through a material with the nuclide add to its indirect effect");
  };
  for (int i = 0; i < n; i++) {
    const double d = vf::real(name_of("d", i), 0, 20);
    const int kind = vf_param("mu", 0) ? 0 : turned ? 2 + (int)vf_choose(name_of("between", i).c_str(), 3) : (int)vf_choose(name_of("between", i).c_str(), 6); // one turn per history
    if (kind == 0) {
      g = (int)vf_choose(name_of("g", i).c_str(), G);
      p.Scatter(vf_param("mu", 0) ? vf::real(name_of("mu", i), -1, 1) : 0.6, Group{(unsigned)g + 1});
    } else if (kind == 1) p.SetDirectionIsotropic();
    else if (kind == 2) p.SetEnergy(Group{(unsigned)(g = 1 - g) + 1});
    else if (kind == 3) p.SetCell(*cells[in = 1 - in]);
    else if (kind == 4) {
      p.BankSecondaries(Direction{0, 1, 0}, Group{1});
      Bank bank;
      p.MoveSecondariesTo(bank);
    } else if (kind == 5) p.Sample();
    turned |= kind < 2;
    same();
    p.Stream(d);
    const bool has[2] = {in == 0, in == 1 || mixed};
    const double macro = N[in] * (in ? cb[g] : mixed ? 0.5 * ca[g] + 0.5 * cb[g] : ca[g]);
    for (int j = 0; j < 2; j++)
      if (has[j]) want[j] += 1 / macro - d;
    same();
    if (kind == 0) moved = true;
  }
  vf_reach(moved ? "scattered" : "not scattered");
}
