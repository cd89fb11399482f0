"""What each check runs."""
SCHED = {"threads", "history"}
CHECKS = {}


def check(pid, functions, bounds, runs, assumptions=(), **kw):
    CHECKS[pid] = dict(functions=functions, bounds=bounds, runs=runs, assumptions=list(assumptions), **kw)


check("G01", ["CSGSurface::Create", "Sphere::Contains", "PlaneX::Contains", "CylinderX::Contains"],
      "one surface of each kind, every parameter and point coordinate in [-10,10] (radius [1/8,10])",
      [dict(h="surface", params=dict(kind=k, what=0), reach=["inside", "outside"]) for k in (0, 1, 2)])
check("G02", ["CSGSurface::Create", "Sphere::Distance", "PlaneX::Distance", "CylinderX::Distance", "CSGSurface::SolveQuadratic", "*::Contains"],
      "one surface of each kind, every parameter and start point in [-10,10] (radius [1/8,10]), every unit direction; start point not exactly on the surface; no sign change looked for beyond 1000 length units",
      [dict(h="surface", params=dict(kind=k, what=1), reach=["crossing", "no crossing"]) for k in (0, 1, 2)])
check("G03", ["World::World", "World::FindCellContaining", "Cell::Contains", "Cell::NearestSurface", "Cell::AssignSurfaceSenses"],
      "two cells over up to three surfaces (plane, sphere, plane; thorough: and a cylinder), every sense or absence, every position, direction and surface parameter in [-8,8]; worlds of four (thorough five) half-space cells that overlap and leave gaps, asked twice; cells of five (thorough seven) planes seen along the axis",
      [dict(h="cell", params=dict(what=0, surfaces=3), reach=["no cell", "a cell", "both"], thorough=dict(surfaces=4)),
       dict(h="cell", params=dict(what=1, surfaces=3, planes=1), reach=["unbounded", "bounded"]),
       dict(h="cell", params=dict(what=1, surfaces=2, fixed=1), reach=["unbounded", "bounded"], thorough=dict(surfaces=4)),
       dict(h="cell", params=dict(what=3, surfaces=4, again=1), thorough=dict(surfaces=5), reach=["a cell", "no cell"]),
       dict(h="cell", params=dict(what=2, surfaces=5), thorough=dict(surfaces=7), reach=["in the cell", "not in the cell"]),
       dict(h="cell", params=dict(what=1, surfaces=2), reach=["unbounded", "bounded"], thorough_only=True)])
check("G04", ["Direction::Direction (all)", "Point operators", "IsotropicFlux::Sample", "Distribution<Direction>::Create"],
      "every unit vector, every cosine in [-1,1], every azimuth; vectors with components in [-20,20]",
      [dict(h="direction", params=dict(what=k), reach=[r]) for k, r in enumerate(["rotated", "isotropic", "normalised", "rotated", "flux", "algebra"])] +
      [dict(h="direction", params=dict(what=4, turn=1), reach=["turned"])])
check("X01", ["Multigroup::Multigroup", "Multigroup::CreateReactions", "Multigroup::CreateScatterXS", "Multigroup::CreateTotalXS", "Multigroup::GetTotal", "Multigroup::GetMajorant", "Nuclide::GetTotal"],
      "2 and 3 (thorough 4) groups, every subset and two orders of the reactions, every cross section in [0,8]; a nuclide with data for neutrons and photons in either order",
      [dict(h="mg", params=dict(what=0, G=2), reach=["total"]),
       dict(h="mg", params=dict(what=0, G=1, both=1), thorough=dict(G=2), reach=["total", "photon"]),
       dict(h="mg", params=dict(what=0, G=3), thorough=dict(G=4), reach=["total"]),
       dict(h="mg", params=dict(what=1, G=2), reach=["capture", "scatter", "fission"])])
check("X02", ["Multigroup::Interact", "Multigroup::Scatter", "NormalizedTwoDimensional", "Particle::SetDirectionIsotropic"],
      "2 and 3 groups, every scattering matrix with entries in [0,8], every draw",
      [dict(h="mg", params=dict(what=2, G=2), reach=["scattered"]), dict(h="mg", params=dict(what=2, G=3), reach=["scattered"])])
check("X03", ["Multigroup::Fission", "Particle::BankSecondaries", "Particle::MoveSecondariesTo", "Bank"],
      "2 groups, mean yield in [0,4] (thorough [0,6]), every spectrum and draw; 1 group, mean yield in [0,12]; 3 groups, mean yield in [0,1] (thorough [0,2])",
      [dict(h="mg", params=dict(what=3, G=2, nu=4), thorough=dict(nu=6), reach=["none", "one", "several"]),
       dict(h="mg", params=dict(what=3, G=3, nu=1), thorough=dict(nu=2), reach=["none", "one"]),
       dict(h="mg", params=dict(what=3, G=1, nu=12), reach=["none", "one", "several"])])
check("M01", ["Material::Material", "Material::AssignNuclides", "Material::GetMicroscopicTotal", "Material::GetMicroscopicMajorant"],
      "2 and 3 nuclides, 2 groups, every cross section in [0,8], every atom fraction in [0,4] with positive sum; 2 (thorough 3) continuous-energy nuclides with every table value, energy and linear temperature, asked for first or after another energy, position or cell",
      [dict(h="mg", params=dict(what=4, nuclides=2), reach=["mixture"]), dict(h="mg", params=dict(what=4, nuclides=3), reach=["mixture"]),
       dict(h="ce", params=dict(what=4, nuclides=2), thorough=dict(nuclides=3), reach=["mixture"]), dict(h="ce", params=dict(what=4, nuclides=2, asked=1), opts={"round": 1}, reach=["mixture"])])
check("M02", ["Particle::SampleNuclide", "Multigroup::Interact"],
      "2 and 3 nuclides, 2 groups, every cross section in [0,8], every atom fraction in [0,4], every draw; 2 (thorough 3) continuous-energy nuclides in fixed proportion with every table value at one energy and every position in a temperature gradient",
      [dict(h="mg", params=dict(what=5, nuclides=2), reach=["chosen"]), dict(h="mg", params=dict(what=5, nuclides=3), reach=["chosen"]),
       dict(h="ce", params=dict(what=4, choice=1, nuclides=2), opts={"round": 1}, thorough=dict(nuclides=3), reach=["chosen"])])
TRACK = ["SurfaceTracking::Transport", "TransportMethod::Create", "Particle::Stream", "Cell::NearestSurface", "World::FindCellContaining", "EstimatorSetProxy::Score"]
check("T01", TRACK,
      "1 to 3 slabs of one- and two-group material (one may be void), every position, thickness, density and cross section in the stated ranges, five directions (one slab: every direction), every draw; histories of at most 3 events",
      [dict(h="transport", params=dict(cells=2, steps=3), reach=["captured", "leaked", "several events"]),
       dict(h="transport", params=dict(cells=3, steps=3, void=1), reach=["captured", "leaked"]),
       dict(h="transport", params=dict(cells=1, steps=3, dirs=1), reach=["captured", "leaked"]),
       dict(h="transport", params=dict(cells=2, steps=3, scatter=1), thorough=dict(steps=4), reach=["captured", "leaked", "several events"]),
       dict(h="transport", params=dict(cells=1, G=2, steps=3, scatter=1), reach=["captured", "leaked", "several events"])],
      assumptions=["planes are at most 10 length units from the origin, so that the fixed crossing nudge exceeds the rounding of a coordinate"])
check("T02", ["CellDeltaTracking::Transport", "CellDeltaTracking::GetCollisionProbabilityDensity", "Continuous::GetTotal", "Continuous::GetMajorant", "LinearField::at", "Material::GetMicroscopicTotal", "Material::GetMicroscopicMajorant", "Particle::SampleNuclide", "Particle::Stream", "CSGCell::NearestSurface", "World::FindCellContaining"],
      "one slab of one or two cells with any linear temperature along x, any position, density and two cross sections (near and above the temperature of the tabulated total), three directions, every draw, at most 5 tentative collisions; and one and two slabs of one- and two-group material where total and majorant agree, at most 3 events",
      [dict(h="delta", params=dict(steps=5), thorough=dict(steps=9), reach=["captured", "leaked", "virtual"]),
       dict(h="delta", params=dict(split=1, steps=4), thorough=dict(steps=6), reach=["captured", "leaked", "virtual", "virtual and crossing"]),
       dict(h="transport", params=dict(delta=1, cells=2, steps=3), reach=["captured", "leaked", "several events"]),
       dict(h="transport", params=dict(delta=1, cells=2, steps=3, scatter=1), thorough=dict(steps=4), reach=["captured", "leaked", "several events"]),
       dict(h="transport", params=dict(delta=1, cells=1, G=2, steps=3, scatter=1), reach=["captured", "leaked", "several events"])],
      assumptions=["a tentative collision exactly on a cell boundary is left open", "planes are at most 10 length units from the origin, so that the fixed crossing nudge exceeds the rounding of a coordinate"])
check("T04", ["FixedSource::Solve", "FixedSource::StartWorker", "Bank::operator+=", "Bank::back", "Bank::pop_back", "Bank::emplace_back", "Particle::MoveSecondariesTo", "Particle::BankSecondaries", "Multigroup::Interact", "Multigroup::Fission", "SurfaceTracking::Transport", "EstimatorProxy::CommitHistory", "Estimator::to_string"],
      "runs of one and two histories in one or two slabs of fissile one-group material: every position, density, cross section, yield up to two and every draw, branching trees of at most 4 particles and 6 events, and of at most 5 particles with yields from three to four",
      [dict(h="history", params=dict(fission=1, particles=4, events=6), thorough=dict(particles=5, events=8), reach=["produced", "report", "several scores"]),
       dict(h="history", params=dict(fission=1, least=3, most=4, particles=5, events=5), thorough=dict(events=6), reach=["produced", "report", "several scores"]),
       dict(h="history", params=dict(fission=1, cells=2, particles=3, events=5), thorough=dict(particles=4, events=7), reach=["produced", "report", "several scores"]),
       dict(h="history", params=dict(fission=1, histories=2, particles=2, events=4), thorough=dict(particles=3), reach=["produced", "report", "several scores"])],
      assumptions=["a collision exactly on a cell boundary is left open", "directions within 0.01 of the plane of the slab are left out"])
check("P01", ["TotalCrossSectionPerturbation::Stream", "PerturbationSet::PerturbationSet", "PerturbationSet::GetIndirectEffects", "Particle::Stream", "Particle::Scatter", "TotalCrossSectionPerturbation::Scatter", "Particle::SetPerturbations", "Particle::GetIndirectEffect", "CurrentTotalCrossSectionSensitivity::GetScore", "SurfaceTracking::Transport", "SurfaceTracking::GetCollisionProbabilityDensity", "FixedSource::StartWorker", "EstimatorSet::to_string"],
      "surface-tracked histories through 1 to 3 slabs of one-group materials of one or two nuclides in every arrangement with perturbations of both: every position, thickness, density, fraction, cross section and draw, at most 3 events; fission trees of at most 3 particles; and two flights in either of two materials with every other thing that can happen to a particle (scattering, a new direction, energy or cell, secondaries, draws) before each",
      [dict(h="indirect", params=dict(cells=2), reach=["only a collision", "crossing and collision", "report"]),
       dict(h="indirect", params=dict(cells=3, mixed=1), reach=["only a collision", "crossing and collision", "report"]),
       dict(h="indirect", params=dict(cells=2, scatter=1), thorough=dict(steps=4), reach=["collisions", "crossing and collision", "report"]),
       dict(h="indirect", params=dict(cells=2, strict=1), nosamples=True, reach=["strict"]),
       dict(h="effects", reach=["scattered", "not scattered"]),
       dict(h="effects", params=dict(mu=1, flights=1), reach=["scattered"]),
       dict(h="history", params=dict(pert=1, fission=1, particles=3, events=5), reach=["produced", "report"]),
       dict(h="history", params=dict(pert=1, histories=2, cells=2), reach=["report"])],
      assumptions=["delta tracking with perturbations is left open", "a flight to a surface may or may not carry the collision term (known finding)", "a collision exactly on a cell boundary is left open"])
check("S01", ["FixedSource::Solve", "FixedSource::StartWorker", "EstimatorSet::operator+=", "EstimatorSet::EstimatorSet(copy)", "EstimatorSetProxy::CommitHistory"],
      "2 threads with 2 and 3 histories under every schedule with at most 2 preemptions, 3 threads with 2 histories likewise, 2 threads with 4 histories and 3 preemptions; every flight distance; one pure absorber",
      [dict(h="threads", params=dict(threads=2, histories=2), reach=["merged", "report"]),
       dict(h="threads", params=dict(threads=2, histories=3), thorough=dict(preemptions=3), reach=["merged", "report"]),
       dict(h="threads", params=dict(threads=3, histories=2, preemptions=2), thorough=dict(histories=3), reach=["merged", "report"]),
       dict(h="threads", params=dict(threads=2, histories=4, preemptions=3), reach=["merged", "report"])],
      assumptions=["sequentially consistent memory; schedule points are atomics, mutexes, futures and thread start and end, and every byte of memory touched by /repo's code between them is checked for data races (vector clocks)"])
check("E01", ["ScorableProxy::Score", "ScorableProxy::CommitHistory", "Scorable::GetScoreAsString", "Estimator::to_string", "ParticleBins::GetIndex"],
      "2 (thorough 3) histories of 2 events in four bins, 6 histories of one event and 2 without any in one bin, one history of 7 events across four bins, 2 histories of 4 events in one bin (thorough: of 3 in two bins); every score in [-4,4]; reports of two estimators in either order",
      [dict(h="estimator", params=dict(what=0), thorough=dict(histories=3), reach=["report"]),
       dict(h="estimator", params=dict(what=0, histories=6, events=1, bins=1, idle=2), reach=["report"]),
       dict(h="estimator", params=dict(what=0, histories=1, events=7, spread=1, idle=2), reach=["report"]),
       dict(h="estimator", params=dict(what=0, histories=2, events=4, bins=1), thorough=dict(bins=2, events=3), reach=["report"]),
       dict(h="estimator", params=dict(what=3), reach=["merged", "rejected"])])
check("E02", ["Scorable::operator+=", "Estimator::operator+=", "EstimatorSet::operator+=", "Estimator::Estimator(copy)", "EstimatorSet::EstimatorSet(copy)", "EstimatorSet::FindEstimatorByName"],
      "three estimators sharing an origin, one history each, one, three and seven (thorough 15) bins with scores in the first, a middle and the last one, every score; two sets of two estimators in either order; chains of up to three copies with a sensitivity and a scale of their own",
      [dict(h="estimator", params=dict(what=1), reach=["merged"]), dict(h="estimator", params=dict(what=1, bins=7), thorough=dict(bins=15), reach=["merged"]), dict(h="estimator", params=dict(what=1, bins=1), reach=["merged"]), dict(h="estimator", params=dict(what=3), reach=["merged", "rejected"]),
       dict(h="estimator", params=dict(what=5), reach=["owned"])])
check("E03", ["CurrentEstimator::GetScore", "CurrentEstimator::CurrentEstimator", "EstimatorSetProxy::Score"],
      "every event kind, every surface or none, two estimators, one or two crossings",
      [dict(h="estimator", params=dict(what=2), reach=["counted", "not counted"])])
check("E04", ["Sensitivity::Create", "CurrentTotalCrossSectionSensitivity::GetScore", "EstimatorProxy::Score", "EstimatorProxy::CommitHistory", "Estimator::operator+="],
      "two perturbations in either order, two histories of two events (one event for four pairs of alike names) in two sets, every flight length in [0,4]",
      [dict(h="estimator", params=dict(what=4, names=0), reach=["sensitivity"]), dict(h="estimator", params=dict(what=4, steps=1), thorough=dict(steps=2), reach=["sensitivity"])])
check("X04", ["Multigroup::Multigroup", "Multigroup::CreateReactions", "Multigroup::CreateTotalXS", "OneDimensional", "TwoDimensional", "Interaction::Create", "Nuclide::Nuclide", "ToReaction"],
      "1 and 2 groups, 0 to 3 (matrices: 0 to 5) entries for each of five quantities with at most one mistake at a time, 3 (thorough 5) groups with none, one too few, one too many and other wrong numbers of entries, every omission of one reaction, four unknown names, four particle lists; every entry in [1/8,8]",
      [dict(h="setup", params=dict(what=3), reach=["refused", "accepted"]), dict(h="setup", params=dict(what=3, more=3), thorough=dict(more=5), reach=["refused", "accepted"])])
check("C01", ["ContinuousMap::at", "ContinuousMap::operator[]", "HDF5DataSet::ToContinuousMap"],
      "one-level tables of 1 to 4 (thorough 5) entries built directly or read from a file, two and three levels of up to 2 entries each (innermost: 4); every strictly increasing axis in [-10,10] with gaps above 1/1000, every value in [-10,10], every argument in [-20,20]",
      [dict(h="tables", params=dict(what=0), thorough=dict(n=5), reach=["below", "inside", "above"]), dict(h="tables", params=dict(what=1), reach=["nested"]), dict(h="tables", params=dict(what=1, three=1), reach=["nested"])])
check("H01", ["HDF5DataSet::HDF5DataSet", "HDF5DataSet::at", "HDF5DataSet::at_from_base", "HDF5DataSet::GetAxis", "ReadPandasAxis", "ReadPandasValues", "ComputeAxisStrides"],
      "1 to 3 levels of 1 to 3 entries, every index up to one past the end of a level, every value; files that are missing, empty or have another number of levels",
      [dict(h="tables", params=dict(what=2), reach=["value", "out of range"]), dict(h="tables", params=dict(what=3), reach=["read", "refused"])],
      assumptions=["the HDF5 library stores and returns bytes faithfully (it runs natively on the symbolic values)"])
check("F01", ["ScalarField::Create", "ConstantField::at", "LinearField::at", "LinearField::LinearField", "Cell::Cell", "World::CreateTemperature"],
      "no, constant and linear global fields, own temperature of either of two cells or none; every point in [-9,9], gradient in [-50,50], temperature in [0,3000]",
      [dict(h="setup", params=dict(what=0), reach=["own", "global", "linear"])])
check("T03", ["TransportMethod::Create", "World::HasConstantTemperature", "LinearField::IsConstant"],
      "no, surface and delta choices; no, constant and linear temperature with any subset of gradient components non-zero",
      [dict(h="setup", params=dict(what=1), reach=["refused", "delta", "surface"])])
check("S02", ["Driver::Driver", "FixedSource::FixedSource", "FixedSource::Solve", "FixedSource::StartWorker", "Source::Sample", "SurfaceTracking::Transport", "EstimatorProxy::CommitHistory", "Estimator::operator+=", "Estimator::to_string"],
      "runs of 2 and 3 histories from the default seed and seeds 1, 2, 7 and 123456, an isotropic source in one or two slabs, with and without fission: every position, density, cross section and every stream of draws",
      [dict(h="history", params=dict(what=1, histories=3), thorough=dict(histories=4), reach=["default seed", "seed", "report", "several scores"]),
       dict(h="history", params=dict(what=1, histories=2, cells=2), thorough=dict(histories=3), reach=["default seed", "seed", "report", "several scores"]),
       dict(h="history", params=dict(what=1, histories=2, fission=1, particles=2, seeds=2), thorough=dict(seeds=5), reach=["default seed", "seed", "produced", "report"]),
       dict(h="history", params=dict(what=1, histories=2, pert=1, seeds=2), thorough=dict(histories=3), reach=["default seed", "seed", "sensitivity", "several scores"]),
       dict(h="setup", params=dict(what=6), reach=["driver"])],
      assumptions=["a collision exactly on a cell boundary is left open", "directions within 0.01 of the plane of the slab are left out", "seeds other than those listed differ only in the number handed to the random number engine"])
check("S03", ["Source::Source", "Source::Sample", "Distribution::Create", "ConstantDistribution::Sample", "IsotropicDirection::Sample", "IsotropicFlux::Sample"],
      "every position, constant direction of any length, energy or one of 3 groups, both particle types, all draws (three seeds to tell streams apart)",
      [dict(h="setup", params=dict(what=2), reach=["constant", "isotropic", "flux", "continuous", "photon"])])
check("B01", ["Bins::Create", "LinspaceBins::GetIndex", "LogspaceBins::GetIndex", "BoundaryBins::GetIndex", "LinspaceBins::LinspaceBins", "LogspaceBins::LogspaceBins", "BoundaryBins::BoundaryBins", "*::to_string"],
      "1 to 6 (thorough 8) equal or logarithmic bins, up to 6 (thorough 8) boundaries; every range, base and value in the stated ranges; boundary lists also in IEEE arithmetic",
      [dict(h="bins", params=dict(what=0, n=6), thorough=dict(n=8), reach=["refused", "below", "above", "inside"]),
       dict(h="bins", params=dict(what=1, n=6), thorough=dict(n=8), reach=["refused", "below", "above", "inside", "not positive"]),
       dict(h="bins", params=dict(what=2, n=6), thorough=dict(n=8), reach=["refused", "below", "above", "inside"]),
       dict(h="bins", params=dict(what=2, n=6), fp=True, thorough=dict(n=8), reach=["refused", "below", "above", "inside"])],
      assumptions=["log is an unknown function with the logarithm's monotonicity and sum laws"])
check("B02", ["ParticleBins::ParticleBins", "ParticleBins::GetIndex", "ParticleBins::size", "ParticleBins::ComputeStrides", "CosineBins", "EnergyBins"],
      "every combination of four cosine and four energy binnings, three reference directions of any length (thorough: any), every direction, group and energy",
      [dict(h="bins", params=dict(what=3), thorough=dict(any=1), reach=["combined"])])
check("W01", ["World::World", "World::CreateCells", "World::FindSurfaceByName", "World::FindNuclideByName", "Cell::Cell", "Cell::AssignSurfaceSenses", "Cell::AssignMaterial", "Material::Material", "EstimatorSet::EstimatorSet", "PerturbationSet::PerturbationSet", "Sensitivity::Create"],
      "one four-cell problem with two orders of its definitions and each kind of definition missing in turn, every density, cross section, surface position and point; one estimator with up to two sensitivities and up to three perturbations, with each reference missing in turn",
      [dict(h="setup", params=dict(what=4), reach=["refused", "accepted"]), dict(h="setup", params=dict(what=5), reach=["refused", "accepted"])])
check("C02", ["Continuous::GetTotal", "Continuous::GetMajorant", "Continuous::ReactionsModifyTotal", "ContinuousScatter::GetCrossSection", "ContinuousScatter::GetMajorant", "ContinuousScatter::IsFreeGasScatteringValid", "ContinuousScatter::GetFreeGasScatterAdjustment", "ContinuousReaction::GetCrossSection", "ContinuousEvaluation::IsValid", "ContinuousMap::at", "Nuclide::GetTotal", "Nuclide::GetMajorant"],
      "one nuclide with any subset of capture, scattering and fission in two orders, tables of two entries on a fixed grid with every value in [0,50]; every energy in [1e-10,5], temperature in [0,3000], evaluation temperature (0 or [1,3000]), mass ratio in [0.5,240], neutron and photon; constant and linear temperature; one per cent and energy limits met exactly are left out; asked for first, and by a particle of one nuclide that asked before at another energy, position or in another cell",
      [dict(h="ce", params=dict(what=0), reach=["tabulated", "summed", "colder than evaluated"]),
       dict(h="ce", params=dict(what=0, linear=1, full=0), budget=(250, 600), reach=["tabulated", "summed", "majorant colder than evaluated"], thorough=dict(full=1)),
       dict(h="ce", params=dict(what=0, full=0, strict=1), reach=["tabulated", "summed"]),
       dict(h="ce", params=dict(what=0, asked=1, full=0), reach=["tabulated", "summed"]), dict(h="ce", params=dict(what=0, linear=1, asked=1, full=0), reach=["tabulated", "summed"]),
       dict(h="ce", params=dict(what=1), reach=["bounded"])],
      assumptions=["the free-gas factor is at least one and grows with temperature (used for the majorant bound only)", "for the majorant bound: a nuclide's tables were processed at one temperature and its total is the sum of its reactions"])
check("C05", ["Continuous::Interact", "Continuous::CreateReactions", "ContinuousCapture::Interact", "ContinuousScatter::Interact", "ContinuousFission::Interact", "ContinuousFission::ContinuousFission", "Particle::BankSecondaries"],
      "seven orders and subsets of capture, scattering and fission, tables of two entries on a fixed grid with every value in [0,50] (yields in [0,8] at the data's temperature, else [0,2], thorough [0,4]), every energy in [1e-10,5], every draw; at most 2 (thorough 3) draws until a reaction is found; in a cell at the data's temperature and in a hotter one (above the free-gas limit; and at one energy below it, with shares within 1e-9 of a limit left out), the latter also where the temperature varies within the cell",
      [dict(h="ce", params=dict(what=2, nu=8), thorough=dict(again=3), reach=["captured", "scattered", "none", "one", "several", "drawn again"]),
       dict(h="ce", params=dict(what=2, warm=1), thorough=dict(nu=4), reach=["captured", "scattered", "none", "one", "several"]),
       dict(h="ce", params=dict(what=2, warm=2), opts={"round": 1}, thorough=dict(nu=4), reach=["captured", "scattered", "none", "one", "several"]),
       dict(h="ce", params=dict(what=2, warm=2, field=1), opts={"round": 1}, thorough=dict(nu=4), reach=["captured", "scattered", "none", "one", "several"])])
RND = {"round": 1}
C3 = dict(h="ce", opts=RND)
check("C03", ["ContinuousScatter::Interact", "Direction::Direction(Direction, mu, phi)", "Particle::Scatter", "Particle::Sample"],
      "flights along two axes in a temperature gradient; three settings and four mass ratios (1, 4, 12, 236) at which each of these is symbolic in turn with the other quantities held: the draws that select a branch and accept a target velocity, over two tries; the deflection in the centre of mass (cosine and azimuth); the azimuth of the target; thorough: the target's cosine and speed, the energy, the temperature, the mass ratio. Deflections of a particle: every direction, cosine, energy and draw",
      [dict(C3, params=dict(what=3, fix=255, tries=2, far=f), reach=["scattered", "one branch", "other branch", "refused"]) for f in (0, 1, 2)] +
      [dict(C3, params=dict(what=3, fix=255, tries=2, heavy=1, far=f), reach=["scattered", "one branch", "other branch", "refused"]) for f in (0, 1, 2)] +
      [dict(C3, params=dict(what=3, fix=159, far=f), budget=(90, 600), reach=["scattered", "one branch", "other branch"]) for f in (0, 1, 2)] +
      [dict(C3, params=dict(what=3, fix=159, heavy=1, far=f), budget=(90, 600), reach=["scattered", "one branch", "other branch"]) for f in (0,)] +
      [dict(C3, params=dict(what=3, fix=239, far=f), budget=(120, 900), reach=["scattered", "one branch", "other branch"]) for f in (0,)] +
      [dict(h="direction", params=dict(what=6, any=a), reach=["deflected"]) for a in (0, 1)] +
      [dict(C3, params=dict(what=3, fix=f, far=a), budget=(0, 900), thorough_only=True) for f, a in ((239, 1), (143, 1), (135, 0), (251, 0), (251, 1), (253, 0), (254, 0), (127, 0), (247, 0))],
      assumptions=["outgoing and relative speeds above a thousandth of the neutron's", "a cosine is at most one (Cauchy and Schwarz)", "constants are rounded to doubles in this encoding"])
TH = dict(h="thermal", opts=RND)
check("C04", ["ThermalScattering::ThermalScattering", "ThermalScattering::IsValid", "ThermalScattering::GetMajorant", "ThermalScattering::GetTotal", "ThermalScattering::EvaluateInelastic", "ThermalScattering::Scatter", "ThermalScattering::SampleBeta", "ThermalScattering::SampleAlpha", "BetaPartition::Evaluate", "AlphaPartition::Evaluate", "ContinuousScatter::GetCrossSection", "Particle::Scatter"],
      "cross section: 1 to 2 orders, 2 to 3 energies, 1 to 3 temperatures, every mode in [-4,4], energy, temperature, free-atom table; sampling: 1 to 3 partitions with 1 or 2 values of the distribution, two grid temperatures and a target below, on, between and above them; symbolic in turn with the others held: both draws of the energy transfer, the draw of the momentum transfer, the incident energy, the distributions, the grid modes; at most 2 draws of the energy transfer",
      [dict(h="thermal", params=dict(what=0), reach=["photon", "above the cutoff", "below the energies", "between energies", "cold", "hot", "between temperatures"]),
       dict(h="thermal", params=dict(what=0, asked=1), reach=["photon", "above the cutoff", "between energies", "between temperatures"]),
       dict(h="thermal", params=dict(what=0, orders=1, nE=2, nT=3), thorough=dict(nE=4), reach=["above the cutoff", "below the energies", "between energies", "cold", "hot", "between temperatures"]),
       dict(TH, params=dict(what=1, fix=27, temps=4), budget=(100, 600), reach=["energy lost", "energy gained", "below the betas", "beyond the betas", "infeasible beta", "beta again"]),
       dict(TH, params=dict(what=1, fix=23, temps=4), reach=["energy lost", "energy gained", "below the betas", "beyond the betas"]),
       dict(TH, params=dict(what=1, fix=27, temps=4, parts=2, nF=2), budget=(100, 600), reach=["energy lost", "energy gained", "below the betas", "beyond the betas", "infeasible beta", "beta again"]),
       dict(TH, params=dict(what=1, fix=23, temps=4, parts=2, nF=2), reach=["energy gained", "below the betas"]),
       dict(TH, params=dict(what=1, fix=27, temps=4, parts=3), budget=(100, 600), reach=["energy lost", "energy gained", "below the betas", "beyond the betas", "infeasible beta", "beta again"]),
       dict(TH, params=dict(what=1, fix=23, temps=4, parts=3), reach=["energy gained", "energy lost", "below the betas"]),
       dict(TH, params=dict(what=1, fix=27, temps=4, cut=1), budget=(100, 600), reach=["energy lost", "energy gained", "beta beyond the cutoff"]),
       dict(TH, params=dict(what=1, fix=19, temps=1), budget=(100, 600), reach=["energy lost", "energy gained"], thorough=dict(temps=4)),
       dict(TH, params=dict(what=1, fix=15, temps=1), budget=(100, 600), reach=["energy lost", "energy gained", "below the betas", "beyond the betas"], thorough=dict(temps=2)),
       dict(TH, params=dict(what=1, fix=30, temps=1, energy=1), budget=(100, 600), reach=["energy lost", "energy gained", "infeasible beta"], thorough=dict(energy=0)),
       dict(TH, params=dict(what=1, fix=30, temps=2, parts=2, energy=1), budget=(150, 600), reach=["energy lost", "energy gained"], thorough=dict(temps=4)),
       dict(TH, params=dict(what=1, fix=29, temps=2), budget=(150, 600), thorough_only=True),
       dict(TH, params=dict(what=1, fix=27, temps=3, tiny=1), reach=[])],
      assumptions=["distributions increase", "momentum transfers exactly at their limits are left out (rounding there can give a cosine beyond one)", "constants are rounded to doubles in the sampling runs"])
