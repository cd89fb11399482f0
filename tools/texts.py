"""Property texts; tools/meta.py turns them into properties.jsonl and MANIFEST.json."""
PROPS = []


def P(id, title, statement, over, for_all, tests, files, mech, observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, for_all=for_all, tests=tests, files=files, mech=mech, observe=list(observe)))


# --- geometry ---------------------------------------------------------------
P("G01", "A point is on exactly the side of a surface its defining equation says",
  "For every kind of surface and every point, the point counts as inside exactly when it satisfies the surface's defining inequality: below the given x for a plane perpendicular to x, within the radius of the centre for a sphere, within the radius of the x axis for a cylinder along x.",
  "I", "every surface parameter, every point",
  "The tests look at a handful of points of one sphere and one plane; the containment test of the cylinder is not exercised at all.",
  ["src/CSGSurface.cpp", "src/CSGSurface.hpp"], [("containment", "CSGSurface.cpp: Sphere::Contains, PlaneX::Contains, CylinderX::Contains"), ("construction from XML", "CSGSurface.cpp: CSGSurface::Create")])
P("G02", "The distance to a surface is the distance to its first crossing along the flight",
  "For every surface, start point and direction, the reported distance is positive, leads to a point on the surface, and nowhere before it does the flight pass from one side to the other; it is infinite exactly when the flight never crosses.",
  "I", "every surface parameter, start point off the surface and unit direction",
  "Tests fix a few rays; grazing rays, starts inside or behind the surface and near-parallel flights form a continuum.",
  ["src/CSGSurface.cpp"], [("root selection", "CSGSurface.cpp: CSGSurface::SolveQuadratic"), ("distances", "CSGSurface.cpp: *::Distance")])
P("G03", "Position determines the cell, and the cell reports its nearest boundary",
  "A point belongs to a cell exactly when it is on the stated side of every bounding surface, lookups return the first such cell in input order and fail when there is none. The nearest boundary reported for a cell is the bounding surface with the smallest distance, with that distance.",
  "IC", "every combination of senses of up to three or four surfaces, every position and direction",
  "Tests check a few points of one two-cell input.",
  ["src/Cell.cpp", "src/World.cpp"], [("membership", "Cell.cpp: Cell::Contains"), ("lookup", "World.cpp: World::FindCellContaining"), ("nearest surface", "Cell.cpp: Cell::NearestSurface")])
P("G04", "Directions stay unit vectors and rotate by exactly the requested angles",
  "Every direction the code makes (normalised, isotropic, flux-weighted, rotated) has unit length; a rotation by a cosine and an azimuth leaves exactly that cosine with the original direction, and different azimuths give the corresponding rotations about it, also for directions along the axes.",
  "I", "every unit vector, cosine and azimuth, every random draw",
  "Tests sample a few angles for a few directions and compare means of samples.",
  ["src/Point.cpp", "src/Point.hpp", "src/Source.cpp"], [("rotation", "Point.cpp: Direction::Direction(Direction, mu, phi)"), ("isotropic sampling", "Point.cpp: Direction::Direction(RNG&)"), ("flux", "Source.cpp: IsotropicFlux::Sample")])
# --- multigroup data --------------------------------------------------------
P("X01", "A group's total cross section is the sum of its reactions",
  "For every nuclide given by group data, the total cross section of each group equals the sum of the capture, fission and outgoing scattering cross sections of that group, whatever subset of reactions is given and in whatever order; the sampling majorant is never below it.",
  "IC", "every set of reactions, every cross section, every group", "Tests use one fixed set of numbers.",
  ["src/Multigroup.cpp"], [("total", "Multigroup.cpp: Multigroup::CreateTotalXS"), ("scatter sum", "Multigroup.cpp: Multigroup::CreateScatterXS")])
P("X02", "Reactions and outgoing groups are sampled in proportion to their cross sections",
  "In a collision a reaction happens for exactly the share of random draws given by its share of the total, and after scattering from group g the outgoing group is chosen in proportion to the matrix entries of g (rows outgoing, columns incoming). The outgoing direction is isotropic, the particle stays alive and does not move.",
  "I", "every matrix, every incoming group, every draw", "Tests compare sample means for fixed data with tolerance; shares of rare groups are invisible to them.",
  ["src/Multigroup.cpp"], [("scatter", "Multigroup.cpp: Multigroup::Scatter"), ("normalisation", "Multigroup.cpp: NormalizedTwoDimensional"), ("reaction choice", "Multigroup.cpp: Multigroup::Interact")])
P("X03", "Fission yields the mean number of neutrons and emits them per spectrum",
  "Fission ends the particle and produces the given mean number of neutrons rounded at random so that the mean is exact; each neutron starts at the fission site in a group sampled from the spectrum of the incident group, isotropically, with its own random number stream.",
  "I", "every mean yield, spectrum and draw", "No test runs fission secondaries.",
  ["src/Multigroup.cpp", "src/Particle.cpp", "src/Bank.cpp"], [("fission", "Multigroup.cpp: Multigroup::Fission"), ("banking", "Particle.cpp: Particle::BankSecondaries")])
P("X04", "Malformed cross section input is rejected with an error",
  "Group data with the wrong number of entries, an unknown reaction, or missing data for a transported particle type is reported as an error when the problem is set up, never accepted silently.",
  "C", "every wrong entry count up to the bound for each reaction, every particle list", "Tests try one wrong count for one reaction.",
  ["src/Multigroup.cpp", "src/Interaction.cpp", "src/Reaction.cpp"], [("entry counts", "Multigroup.cpp: OneDimensional, TwoDimensional"), ("particles", "Interaction.cpp: Interaction::Create"), ("reaction names", "Reaction.cpp: ToReaction")])
P("M01", "A material's cross section is the atom-fraction weighted mean of its nuclides",
  "Atom fractions are normalised to one in proportion to the given numbers, and the material's microscopic total and majorant are the fraction-weighted sums over its nuclides, independent of the order of listing.",
  "IC", "every fraction and cross section, orders of listing", "Tests check the normalisation of one material.",
  ["src/Material.cpp"], [("normalisation", "Material.cpp: Material::AssignNuclides"), ("mixture", "Material.cpp: Material::GetMicroscopicTotal")])
P("M02", "The nuclide of a collision is chosen by its share of the cross section",
  "In a collision each nuclide of the material is hit for exactly the share of random draws equal to its atom fraction times its cross section over the material's, using one random number.",
  "I", "every mixture and draw", "No test observes the choice.",
  ["src/Particle.cpp", "src/Material.cpp"], [("choice", "Particle.cpp: Particle::SampleNuclide")])
# --- continuous-energy data -------------------------------------------------
P("C01", "Tabulated data is linearly interpolated and clamped at its ends",
  "Looking up a tabulated function gives the tabulated value at a tabulated point, the linear interpolation between the two neighbours inside the table, and the first or last value outside; a nested table read from a file holds at each level's entry exactly the part of the file stored for it.",
  "I", "every strictly increasing table up to the bound, every value and argument", "One test looks up a few points of one file.",
  ["src/ContinuousMap.hpp", "src/HDF5DataSet.hpp"], [("lookup", "ContinuousMap.hpp: ContinuousMap::at"), ("loading", "HDF5DataSet.hpp: ToContinuousMap")])
P("C02", "Cross sections at a temperature: tabulated total, reaction sums, free-gas factor",
  "The total cross section of a nuclide at a position is the tabulated total when that was evaluated at the local temperature (within 1 %) and otherwise the sum over reactions, where scattering evaluated at another temperature is rescaled by the free-gas factor below its energy limit. In a cell of varying temperature the majorant is the cross section at the cell's highest temperature and is not below the total anywhere in the cell.",
  "IC", "every table, energy, temperature and reaction set within the bounds", "Tests use one library at fixed temperatures.",
  ["src/Continuous.cpp", "src/ContinuousReaction.cpp", "src/ContinuousEvaluation.cpp"], [("choice of total", "Continuous.cpp: Continuous::GetTotal, GetMajorant"), ("free gas", "ContinuousReaction.cpp: GetFreeGasScatterAdjustment"), ("validity", "ContinuousEvaluation.cpp: IsValid")])
P("C03", "Free-gas scattering conserves energy and momentum in the centre of mass",
  "An elastic collision with a thermally moving target leaves the neutron with the speed relative to the centre of mass unchanged: its outgoing energy and deflection are those of rotating the centre-of-mass velocity by the sampled angles for the sampled target velocity. The target speed and cosine are accepted in proportion to the relative speed.",
  "I", "every energy, temperature, mass ratio and draw within the bounds", "Tests compare histogram means.",
  ["src/ContinuousReaction.cpp"], [("kinematics", "ContinuousReaction.cpp: ContinuousScatter::Interact")])
P("C04", "Bound thermal scattering stays within kinematic limits and its tables",
  "Below its cutoff energy a bound scatterer's cross section is interpolated from the reconstruction at the neighbouring energies and temperatures; the sampled energy transfer never takes more than the neutron's energy and never exceeds the cutoff, and the sampled momentum transfer always gives a scattering cosine between -1 and 1. Outside the tabulated temperatures the nearest one is used.",
  "I", "every small reconstruction, energy, temperature and draw within the bounds", "One test samples one library.",
  ["src/ThermalScattering.cpp", "src/ThermalScattering.hpp"], [("cross section", "ThermalScattering.cpp: GetTotal"), ("energy transfer", "ThermalScattering.cpp: SampleBeta"), ("momentum transfer", "ThermalScattering.cpp: SampleAlpha")])
P("C05", "Continuous-energy reactions are sampled in proportion to their cross sections",
  "In a continuous-energy collision each reaction happens for exactly the share of draws equal to its share of the summed cross sections at the local temperature and energy. Fission ends the particle and emits the interpolated mean yield of neutrons, rounded at random, at the fission site with the incident energy.",
  "I", "every table, energy and draw within the bounds", "Tests compare sample means for one library; fission is not run.",
  ["src/Continuous.cpp", "src/ContinuousReaction.cpp"], [("choice", "Continuous.cpp: Continuous::Interact"), ("fission", "ContinuousReaction.cpp: ContinuousFission::Interact")])
P("H01", "A data file yields the value stored for each index combination, or an error",
  "Loading a multi-level data file and asking for a combination of indices gives the stored value with the last level changing fastest; an index beyond its level, a missing file or a file of another number of levels is an error.",
  "IC", "every small shape and every index in 1 to 3 levels", "One test reads a few entries of one file.",
  ["src/HDF5DataSet.hpp"], [("strides", "HDF5DataSet.hpp: ComputeAxisStrides"), ("range checks", "HDF5DataSet.hpp: at_from_base"), ("reading", "HDF5DataSet.hpp: ReadPandasAxis, ReadPandasValues")])
P("F01", "Temperature fields give the stated temperature everywhere",
  "A cell's temperature at a point is its own constant when it has one, otherwise the global field there: the constant, the linear form of the coordinates, or room temperature when none is given. The bounds reported for the field are those given.",
  "IC", "every field and point", "Tests check one linear field at one point.",
  ["src/ScalarField.cpp", "src/Cell.cpp", "src/World.cpp"], [("fields", "ScalarField.cpp: LinearField::at, ConstantField::at"), ("cell override", "Cell.cpp: Cell::Cell"), ("default", "World.cpp: World::CreateTemperature")])
# --- transport --------------------------------------------------------------
P("T01", "A surface-tracked history is exactly what its random numbers dictate",
  "Each flight is exponential with the material's macroscopic total cross section; the particle collides if that is shorter than the distance to the boundary of its cell and otherwise crosses into the cell beyond, and the history ends by absorption or on entering void. Every event is scored once, at the position and with the direction and group after it.",
  "I", "every slab geometry, density, cross section, start and draw within the bound on events", "Tests compare one mean of many histories.",
  ["src/TransportMethod.cpp", "src/Particle.cpp"], [("loop", "TransportMethod.cpp: SurfaceTracking::Transport"), ("flight", "Particle.cpp: Particle::Stream")], ["estimator scores", "final particle state"])
P("T02", "Delta tracking samples real collisions with the true local cross section",
  "With delta tracking, flights use the cell's majorant, tentative collisions are real with probability total over majorant at the collision site's cross section, virtual collisions change nothing but the position, and with equal total and majorant the history equals a surface-tracked one up to the extra draws.",
  "I", "every slab geometry, material and draw within the bound on events", "Tests compare one mean.",
  ["src/TransportMethod.cpp"], [("loop", "TransportMethod.cpp: CellDeltaTracking::Transport")])
P("T03", "The tracking method is the requested one and unsound combinations are refused",
  "Without a choice, or with the surface choice, surface tracking is used; delta tracking is used when requested. Surface tracking is refused with an error exactly when the global temperature varies in space.",
  "C", "every choice and temperature field", "Tests only run inputs with valid combinations.",
  ["src/TransportMethod.cpp", "src/World.cpp"], [("choice", "TransportMethod.cpp: TransportMethod::Create"), ("constancy", "ScalarField.cpp: LinearField::IsConstant")])
P("T04", "Every fission neutron is followed exactly once within its history",
  "A history follows its source particle and every particle produced along the way, each exactly once, until none is left, and all their scores count as one history.",
  "I", "every branching tree within the bound", "No test has secondaries.",
  ["src/FixedSource.cpp", "src/Bank.cpp", "src/Particle.cpp"], [("loop over the bank", "FixedSource.cpp: FixedSource::StartWorker"), ("hand-over", "Particle.cpp: Particle::MoveSecondariesTo")])
# --- source and runs --------------------------------------------------------
P("S01", "A run's result does not depend on how the worker threads are scheduled",
  "For any number of threads and any interleaving, a fixed-source run performs each requested history exactly once with the seed of its number and reports the sums of scores and squares over all of them; threads never race on data.",
  "SI", "every schedule within the bounds on threads, histories and preemptions, every flight", "Tests run with whatever schedule happens.",
  ["src/FixedSource.cpp", "src/Driver.cpp", "src/Estimator.cpp"], [("history counter", "FixedSource.cpp: FixedSource::StartWorker"), ("merging", "FixedSource.cpp: FixedSource::Solve")], ["EstimatorSet returned by Solve"])
P("S02", "History i of a run with seed s is the one history of a run with seed s+i",
  "A run of n histories gives the sum of the n single-history runs with consecutive seeds, so runs are reproducible and extend each other; the default seed is one.",
  "IH", "every seed and count within the bounds, every data in the world", "Tests compare two runs of one input.",
  ["src/FixedSource.cpp", "src/Driver.cpp", "src/Source.cpp"], [("seeding", "FixedSource.cpp: FixedSource::StartWorker"), ("default", "Driver.cpp: Driver::Driver")])
P("S03", "Source particles have the specified position, direction, energy and type",
  "A sampled source particle has exactly the given position, energy or group, and particle type and a direction from the given distribution, is alive and outside any history, and carries its own random stream; the same seed gives the same particle.",
  "IC", "every source specification and seed within the bounds", "Tests sample one source.",
  ["src/Source.cpp"], [("sampling", "Source.cpp: Source::Sample"), ("distributions", "Source.cpp: Distribution::Create")])
# --- scoring ----------------------------------------------------------------
P("B01", "A value falls into the bin whose boundaries enclose it",
  "For every kind of binning, a value is put in the bin whose lower boundary it reaches and whose upper boundary it stays below, with one bin below and one above the stated range; boundaries that do not increase are refused.",
  "IC", "every boundary list, range, number of bins and value within the bounds", "No test covers binning.",
  ["src/Bins.cpp"], [("indices", "Bins.cpp: LinspaceBins::GetIndex, LogspaceBins::GetIndex, BoundaryBins::GetIndex"), ("checks", "Bins.cpp: constructors")])
P("B02", "Cosine and energy bins combine into distinct, complete score bins",
  "An estimator has one score bin per combination of cosine bin and energy bin, combinations are numbered with energy fastest, the cosine is taken with the stated reference direction, and a missing dimension counts as a single bin.",
  "IC", "every combination of binnings, direction and energy within the bounds", "No test covers it.",
  ["src/Bins.cpp", "src/Bins.hpp"], [("flattening", "Bins.cpp: ParticleBins::GetIndex"), ("strides", "Bins.hpp: ComputeStrides")])
P("E01", "Reported means and deviations treat each history as one sample",
  "For every bin the reported mean is the sum of scores over histories divided by their number, and the deviation is computed from the squares of per-history totals, however many events of a history scored; an unfinished history does not count. Each estimator is reported under its name.",
  "IH", "every sequence of scores and bins within the bounds", "Tests look at one mean.",
  ["src/Scorable.cpp", "src/Estimator.cpp"], [("pending scores", "Scorable.cpp: ScorableProxy::Score, CommitHistory"), ("statistics", "Scorable.cpp: Scorable::GetScoreAsString")])
P("E02", "Copies of estimators are independent and merging adds them by name",
  "A copied estimator starts from the original's scores and shares nothing afterwards; merging adds scores and squares bin by bin between estimators of the same name in any order and leaves the other operand alone, and fails when one is missing.",
  "IH", "every score, order and subset within the bounds", "Tests only exercise it implicitly.",
  ["src/Estimator.cpp", "src/Scorable.cpp"], [("merge", "Estimator.cpp: EstimatorSet::operator+="), ("copy", "Estimator.cpp: EstimatorSet::EstimatorSet")])
P("E03", "A current estimator counts every crossing of its surface once and nothing else",
  "An estimator of the current through a surface scores one for each event in which a particle crosses or leaves through that surface, and nothing for any other event or surface.",
  "I", "every event kind, surface and repetition", "Tests look at one total.",
  ["src/Estimator.cpp"], [("score", "Estimator.cpp: CurrentEstimator::GetScore")])
P("E04", "A sensitivity is the score weighted with its own perturbation's effect",
  "A sensitivity scores the estimator's score times the indirect effect accumulated for its own perturbation, is normalised, merged and reported like a score, and is named after estimator and perturbation.",
  "IH", "every flight and event sequence within the bounds", "No test covers sensitivities.",
  ["src/Sensitivity.cpp", "src/Estimator.cpp"], [("score", "Sensitivity.cpp: GetScore"), ("merge", "Estimator.cpp: Estimator::operator+=")])
P("P01", "Indirect effects accumulate the logarithmic derivative of the flight densities",
  "For a perturbation of a nuclide's total cross section, each flight through a material containing the nuclide adds the derivative of the logarithm of its probability density (one over the cross section minus the length for a flight that ends in a collision), and flights through other materials add nothing; effects start at zero with each particle.",
  "IH", "every flight sequence within the bounds", "No test covers perturbations.",
  ["src/Perturbation.cpp", "src/Particle.cpp"], [("flight", "Perturbation.cpp: TotalCrossSectionPerturbation::Stream"), ("accumulation", "Particle.cpp: Particle::Stream")])
# --- set-up -----------------------------------------------------------------
P("W01", "A problem is built exactly as described or refused with an error",
  "Cells appear in input order with the surfaces, senses, materials and densities named; surfaces, materials and nuclides shared by several cells are one object; every reference to something undefined is an error at set-up.",
  "C", "every small combination of definitions and references", "Tests cover one valid input and two missing names.",
  ["src/World.cpp", "src/Cell.cpp", "src/Material.cpp", "src/CSGSurface.cpp"], [("construction", "World.cpp: World::World"), ("references", "Cell.cpp: Cell::AssignSurfaceSenses")])
P("V01", "Input files that violate the schema are refused before anything runs",
  "An input file that is missing, not well-formed or does not follow the published schema is refused with an error.",
  "I", "every input file", "Tests try one malformed file.",
  ["src/XMLDocument.cpp", "src/Driver.cpp"], [("validation", "XMLDocument.cpp: XMLDocument::ValidateXML")])
P("K01", "An eigenvalue run iterates fission sources over its cycles",
  "An eigenvalue run transports the fission neutrons of each cycle as the source of the next and reports results of the active cycles only.",
  "I", "every eigenvalue problem", "No test covers it.",
  ["src/KEigenvalue.cpp"], [("cycles", "KEigenvalue.cpp: KEigenvalue::Solve")])
NOT_APPLICABLE = {
    "V01": "schema validation is done entirely by the Xerces-C library over file bytes; /repo's code only installs an error handler that throws, so there is no /repo computation over a symbolic input to encode, and the library (a full XML Schema engine) is beyond a symbolic encoding here",
    "K01": "the eigenvalue solver is not implemented: the cycle body of KEigenvalue::Solve is commented out (marked TODO), so no behaviour exists to encode; recorded in DESIGN.md",
}
