NA = []
PROPS = [
dict(id="S01", title="The linear system is the exact response of the momentum and mass residual",
 statement="For every velocity, pressure, viscosity and density state and every supported boundary condition, changing the unknowns by a multiple of an arbitrary increment changes the momentum and continuity residuals by exactly that multiple of the assembled (linear-rheology) system applied to the increment, apart from the compressible storage term. Building the system and the residual never reads or writes outside the mesh arrays.",
 over=["inputs","configurations"], qtext="all field values, box sizes and increments on small grids, for every combination of free-slip, no-slip, normal-stress and periodic sides, with and without an internal free surface, compressibility, out-of-plane strain and free-surface stabilisation",
 why="they cannot tell an exact operator from one that merely still converges, and use only pure/simple shear boundaries without free surface.",
 files=["MDLIB/StokesAssemblyDecoupled.c","MDLIB/StokesRoutines.c","MDLIB/RheologyDensity.c","MDLIB/Setup.c"],
 mech=[("BuildStokesOperatorDecoupled","MDLIB/StokesAssemblyDecoupled.c"),("Xmomentum_InnerNodesDecoupled / Zmomentum_InnerNodesDecoupled / Continuity_InnerNodesDecoupled","MDLIB/StokesAssemblyDecoupled.c"),("ExtractSolutions2, ApplyBC","MDLIB/StokesRoutines.c"),("StrainRateComponents","MDLIB/RheologyDensity.c")]),
dict(id="S02", title="The residual is the force and mass balance of each control volume",
 statement="For every stress, pressure, density, velocity and gravity field, the momentum residual of each free velocity is the net surface traction plus weight of its control volume and the continuity residual of each cell is its net outflow plus compressible storage minus thermal source. Strain rates, rotation rate and divergence of any linear flow are exact at every cell and vertex, and a column at rest under hydrostatic pressure has zero residual. With surface stabilisation the weight uses the density the flow brings in during the step; in polar set-ups gravity points to the origin.",
 over=["inputs","configurations"], qtext="all field values on small grids with closed, prescribed-velocity, prescribed-stress and periodic sides, an internal free surface, compressibility, density-based compressibility and out-of-plane strain",
 why="iteration counts do not reveal that the converged solution satisfies the wrong balance.",
 files=["MDLIB/StokesAssemblyDecoupled.c","MDLIB/StokesRoutines.c","MDLIB/RheologyDensity.c","MDLIB/GridRoutines.c"],
 mech=[("residual branches of the momentum and continuity node functions","MDLIB/StokesAssemblyDecoupled.c"),("EvaluateRHS","MDLIB/StokesRoutines.c"),("StrainRateComponents","MDLIB/RheologyDensity.c"),("InterpCentroidsToVerticesDouble","MDLIB/GridRoutines.c")]),
dict(id="S03", title="The Stokes system is well-formed, symmetric and adjoint",
 statement="Every free velocity and pressure owns exactly one equation, periodic sides share one unknown, and the assembled blocks are valid sparse matrices with indices inside the system. For velocity or periodic sides, the viscous block is symmetric with positive diagonal, the pressure gradient is the negative transpose of the divergence (up to the out-of-plane factor), and rigid translation produces no interior viscous force.",
 over=["inputs","configurations"], qtext="all viscosities and box sizes on small grids, all combinations of side conditions, internal free surface, compressibility and out-of-plane strain",
 why="they never look at the matrix; the direct solver silently uses one triangle.",
 files=["MDLIB/StokesAssemblyDecoupled.c","MDLIB/StokesRoutines.c"],
 mech=[("EvalNumberOfEquations","MDLIB/StokesRoutines.c"),("BuildStokesOperatorDecoupled, MergeParallelMatrix, DomainDecompositionDecoupled","MDLIB/StokesAssemblyDecoupled.c")]),
dict(id="S04", title="The Newton operator is the derivative of the residual",
 statement="When stress responds to strain rate and pressure through any tangent tensor (all twelve entries arbitrary per cell and vertex), the assembled Newton operator applied to any increment equals the resulting change of the momentum residual at every velocity node whose stencil lies inside the box. For an isotropic tensor this also holds next to closed, no-slip and periodic sides and below a free surface. The Newton and Picard divergence blocks are identical.",
 over=["inputs","configurations"], qtext="all tangent tensors, increments, box sizes on small grids; free-slip, no-slip, periodic sides, internal free surface, out-of-plane strain (compressible formulation)",
 why="a wrong derivative still converges, only more slowly, and pressure- or shear-coupled terms are zero in every test.",
 files=["MDLIB/StokesAssemblyDecoupled.c","MDLIB/RheologyDensity.c","MDLIB/StokesRoutines.c"],
 mech=[("Xjacobian_InnerNodesDecoupled3 / Zjacobian_InnerNodesDecoupled3","MDLIB/StokesAssemblyDecoupled.c"),("BuildJacobianOperatorDecoupled","MDLIB/StokesAssemblyDecoupled.c")]),
dict(id="S05", title="Scaling, corrections and line search preserve the solution they claim",
 statement="Diagonal scaling is transparent: solving the scaled rows and scaling back satisfies the unscaled rows, the residual carries the same factors, and the stored residual fields and norms are the unscaled ones. One correction changes every free velocity and pressure by exactly the solved increment, keeps prescribed values, and re-imposes ghost values. The line search leaves the fields untouched, returns a tried step of smallest combined residual, only if it lowers the starting residual, and otherwise reports stagnation with a zero step.",
 over=["inputs","configurations"], qtext="all fields, increments, scaling factors and trial residuals on small grids; closed, no-slip, stress and periodic sides, free surface, compressible and incompressible",
 why="neither the scaled path with a free surface nor a failing line search occurs in them.",
 files=["MDLIB/StokesRoutines.c"],
 mech=[("ExtractDiagonalScale, ScaleMatrix, ScaleVelocitiesRHSBack","MDLIB/StokesRoutines.c"),("EvaluateStokesResidualDecoupled","MDLIB/StokesRoutines.c"),("SolveStokesDefectDecoupled, ExtractSolutions2, ApplyBC","MDLIB/StokesRoutines.c"),("LineSearchDecoupled","MDLIB/StokesRoutines.c")]),
dict(id="T01", title="The temperature update conserves heat cell by cell",
 statement="For every conductivity, heat capacity, density, source, velocity and boundary value, the temperature found by the thermal step satisfies the implicit heat balance of each rock cell: stored heat equals conducted flux over its four faces plus radiogenic, shear and adiabatic heating. Prescribed temperatures, prescribed fluxes, insulation, periodic sides and a free surface at fixed temperature enter that balance as stated. Repeated thermal steps each satisfy it.",
 over=["inputs","configurations"], qtext="all material, velocity and boundary values on small grids with unequal spacing; fixed-temperature, insulated, prescribed-flux and periodic sides, staircase free surface, with and without each heat source",
 why="no test runs the thermal solver.",
 files=["MDLIB/ThermalRoutines.c","MDLIB/ThermalSolver.c","MDLIB/SparseTools.c"],
 mech=[("EnergyDirectSolve","MDLIB/ThermalRoutines.c"),("ThermalSteps, SetThermalPert","MDLIB/ThermalRoutines.c"),("FactorEnergyCHOLMOD, SolveEnergyCHOLMOD","MDLIB/ThermalSolver.c")]),
dict(id="T02", title="Chemical diffusion conserves composition cell by cell",
 statement="For every diffusivity, time step, composition and boundary value, the composition found by the diffusion step satisfies the implicit mass balance of each cell: change of content equals net flux over its faces. Prescribed compositions, prescribed fluxes, closed and periodic sides enter that balance as stated, and the step reads only initialised data.",
 over=["inputs","configurations"], qtext="all diffusivities, compositions, boundary values and spacings on small grids; fixed, closed, prescribed-flux and periodic sides",
 why="no test runs chemical diffusion.",
 files=["MDLIB/ChemicalRoutines.c","MDLIB/ThermalSolver.c"],
 mech=[("ChemicalDirectSolve","MDLIB/ChemicalRoutines.c")]),
dict(id="P01", title="Grid values are the distance-weighted means of the surrounding markers",
 statement="For any marker positions, phases and values, each cell centre, vertex and velocity node receives the arithmetic, harmonic or geometric mean of the nearby active markers weighted by distance, hence a value between their extremes. Phase fractions are the weighted shares: non-negative and summing to one wherever a marker is near. Inactive markers never contribute, air nodes and nodes without markers keep their value, uniform marker fields stay uniform and periodic sides agree.",
 over=["inputs","configurations"], qtext="all positions of one or two markers among up to three, all values, both stencils, all four node sets, three averages, closed and periodic boxes",
 why="tests place a dense regular marker cloud and only look at iteration counts.",
 files=["MDLIB/ParticleRoutines.c"],
 mech=[("P2Mastah","MDLIB/ParticleRoutines.c")]),
dict(id="P02", title="Markers receive the bilinear interpolant of grid fields",
 statement="For any marker position in the box and any nodal values, a marker receives the bilinear interpolant of the surrounding nodes; between the outermost cell centres and the box side it receives the side value, or across a periodic side the interpolant with the opposite cell. Values stored in air nodes do not reach markers that have rock nodes around them, and no node outside the grid is read.",
 over=["inputs"], qtext="all marker positions, nodal values and box sizes; vertex and centre fields, periodic and closed sides, one air node",
 why="tests check norms of whole fields after few steps.",
 files=["MDLIB/ParticleRoutines.c"],
 mech=[("Interp_Grid2P, Interp_Grid2P_centroids2","MDLIB/ParticleRoutines.c"),("Centers2Particle, Vertices2Particle","MDLIB/ParticleRoutines.c")]),
dict(id="A01", title="Markers follow the flow and stay accounted for",
 statement="A marker sees the bilinear interpolant of the staggered velocity (plus the conservative correction when enabled), exact for linear flow, and never velocities stored in the air. One advection step moves it by the fourth-order Runge-Kutta displacement; uniform flow moves it by exactly velocity times time step. A marker leaving the box is deactivated, one leaving through a periodic side re-enters opposite, and inactive markers neither move nor come back.",
 over=["inputs","histories"], qtext="all marker positions and velocities; closed and periodic boxes, with and without conservative interpolation",
 why="tests compare iteration counts after a single step.",
 files=["MDLIB/AdvectionRoutines.c","MDLIB/ParticleRoutines.c"],
 mech=[("RogerGuntherII","MDLIB/AdvectionRoutines.c"),("V2P","MDLIB/ParticleRoutines.c"),("isout, isoutPart","MDLIB/AdvectionRoutines.c")]),
dict(id="A02", title="Time steps respect their limits and a moving box moves with its sides",
 statement="An adaptive time step is the largest one that moves no velocity node further than the Courant fraction of the smaller cell size, does not grow beyond the allowed factor, and respects surface, reaction, minimum and maximum limits; without motion the starting step is used, and a constant step stays constant. The initial elastic step never exceeds the smallest relaxation time of the rock. A moving box shifts each side by the mean of its prescribed velocities times the step, and the grid spans the new box.",
 over=["inputs","configurations"], qtext="all velocities, spacings, limits, previous steps, moduli and viscosities on a small grid",
 why="tests use a single constant step in a fixed box.",
 files=["MDLIB/AdvectionRoutines.c","MDLIB/GridRoutines.c"],
 mech=[("EvaluateCourantCriterion, DefineInitialTimestep","MDLIB/AdvectionRoutines.c"),("PureShearALE","MDLIB/AdvectionRoutines.c"),("SetGridCoordinates","MDLIB/GridRoutines.c")]),
dict(id="R01", title="Stress obeys the active flow laws acting in series",
 statement="For every strain rate, pressure, temperature and parameter, the local rheology returns a stress equal to twice the effective viscosity times strain rate that drives each active mechanism by its own flow law, elastic, viscous and plastic strain rates adding up. Above yield the stress lies on the Drucker-Prager surface at the corrected pressure with linear overstress and dilation, never above the stress cut-off; viscosity respects its limits. Reactions and density relax over their kinetic time. Grid values are the phase-fraction means, air stays untouched.",
 over=["inputs","configurations"], qtext="all strain rates, pressures, temperatures and parameters at one material point, for each flow law (exponent up to 3), for linear laws in series with elasticity, for Drucker-Prager plasticity (linear overstress, cut-off, dilation); two-phase 3x3 grid with three averages",
 why="tests use constant viscosity or one power law and compare iteration counts.",
 files=["MDLIB/RheologyDensity.c"],
 mech=[("ViscosityConcise, LocalIterationViscoElastic","MDLIB/RheologyDensity.c"),("NonNewtonianViscosityGrid, EffectiveStrainRate","MDLIB/RheologyDensity.c")]),
dict(id="J01", title="The Newton tangent is the derivative of the stress",
 statement="With Newton iterations the tangent coefficients of every cell and vertex are the derivatives, at the current effective strain rate and pressure, of the deviatoric stress (twice the phase-averaged viscosity times the strain rate seen along the anisotropic fabric) with respect to exx, ezz, engineering shear rate and pressure, less the bulk modulus times step times the derivative of plastic divergence in compressible runs. The derivative of density with pressure is stored with the cell. Arithmetic, harmonic and geometric averages each have their own derivative; every material property is the one of that point; air has no tangent.",
 over=["inputs","configurations"], qtext="all strain rates, stresses, pressures, shares and viscosities (away from zero) for rheologies quadratic in strain rate and pressure; three averages, elastic or not, compressible or not, isotropic or anisotropic; 3x2 nodes",
 why="tests compare iteration counts of one power-law model and cannot see a wrong coefficient that only slows or biases convergence.",
 files=["MDLIB/StokesRoutines.c","MDLIB/FD_Jacobian.c"],
 mech=[("RheologicalOperators, EffectiveStrainRate","MDLIB/StokesRoutines.c"),("DerivativesOnTheFly_n, DerivativesOnTheFly_s, PhaseRheologyLoop_v1","MDLIB/FD_Jacobian.c")]),
dict(id="R02", title="Material properties follow their state laws",
 statement="For every temperature, pressure, composition and strain: density follows the selected equation of state or its table (interpolated, bounded outside, never read outside); melt fraction stays in [0,1], grows with temperature, relaxes over its kinetic time, has a continuous solidus and does not depend on the unit system; two-phase power-law mixtures reduce to their end members; strength softens between the two strain limits only. Cells take phase-fraction means; air cells stay empty.",
 over=["inputs","configurations"], qtext="all states, parameters and table entries; each density, melting and softening model; two phases on a 3x3 grid",
 why="tests use constant density without melting, tables or softening.",
 files=["MDLIB/RheologyDensity.c","MDLIB/MeltingRoutines.c"],
 mech=[("EvaluateDensity, UpdateDensity, ItpRho1D, Interpolate2Ddata","MDLIB/RheologyDensity.c"),("PartialMelting, MeltFractionGrid, UpdateAlphaCp, MassSourceTerm","MDLIB/MeltingRoutines.c"),("CohesionFrictionDilationGrid, Softening, ShearModCompExpGrid, HuetAveragingModel","MDLIB/RheologyDensity.c")]),
dict(id="I01", title="A restart resumes from exactly the state that was saved",
 statement="Writing a breakpoint and loading it restores step size, time, box, every marker (position, phase, stresses, strains, deformation gradient, director, grain size, temperature, history), surface chains and topography, velocity, pressure, the fields of the previous step, cell flags, boundary values, phase fractions and recorded time series, for every state and unit system. Writing leaves the running calculation unchanged, a later breakpoint leaves an earlier one intact, and a missing breakpoint is refused.",
 over=["inputs","histories","configurations"], qtext="every stored number and all scales arbitrary, 3x4 nodes, two markers, two phases, all combinations of elasticity, finite strain, anisotropy, tracking and free surface, kept or overwritten breakpoints",
 why="no test writes or loads a breakpoint.",
 files=["MDLIB/InputOutput.c"],
 mech=[("MakeBreakpointParticles, LoadBreakpointParticles","MDLIB/InputOutput.c")]),
dict(id="I02", title="A setup file means what it says, in any unit system",
 statement="Each parameter takes the value on the line bearing exactly its name, wherever it stands among comments, blank lines and similar names, with or without a final newline, and its default if absent. Material parameters belong to the block of their phase in any block order. Every value times the unit of its quantity is the dimensional value given; derived spacing, units and implied switches follow. Phase diagrams and kinetic tables are read from their files, with their ranges, in units. Missing or contradictory files stop the run.",
 over=["inputs","configurations"], qtext="every numeric value and all four scales; all model parameters, all material parameters of two phases in both orders; every position of a parameter in files of up to nine lines",
 why="tests read a few fixed well-formed files and never look at the values.",
 files=["MDLIB/InputOutput.c"],
 mech=[("ReadInputFile","MDLIB/InputOutput.c"),("ReadInt2, ReadDou2, ReadChar, ReadMatProps","MDLIB/InputOutput.c"),("ScaleMe","MDLIB/InputOutput.c")]),
dict(id="I03", title="Output files hold the fields of the model in physical units",
 statement="An output file holds, under its documented group and name, once each, every grid field, coordinate, boundary flag, time series, iteration log, surface and marker quantity, with one entry per node, cell or marker; each value is the model value times the unit of its quantity, air cells carrying the values set for air. Optional fields are there exactly when asked for. Phase maps give the phase of the closest active marker and none in air. The file is named after its step and folder, everything is closed, and writing leaves the model unchanged.",
 over=["inputs","configurations"], qtext="all field, marker and surface values and scales on 3x2 cells with seven markers, all combinations of optional fields, marker positions anywhere for phase maps, datasets of 1 to 60 entries",
 why="tests read a few values of one field in unit scaling and never compare units, flags, markers or surface data.",
 files=["MDLIB/HDF5Output.c","MDLIB/ParticleRoutines.c"],
 mech=[("WriteOutputHDF5, WriteOutputHDF5Particles, WriteResiduals, AddFieldToGroup","MDLIB/HDF5Output.c"),("Interp_Phase2VizGrid","MDLIB/ParticleRoutines.c")]),
dict(id="D01", title="Time series record the mean state and the energies of each step",
 statement="After every step the time series hold, at the index of that step and nowhere else, the time, the shortening of the box in per cent, the work and the thermal and elastic energies, and the means of temperature, pressure, stress and strain-rate components and of their second invariants, each times the unit of its quantity. A mean is taken over exactly the cells that hold material: shear components are averaged from the four corners of the cell, the invariant is formed in the cell before it is averaged, and cells of air never count.",
 over=["inputs"], qtext="2x2, 3x1 and 1x3 cells with any of them empty, all fields; every step number, all units and values",
 why="tests do not look at the time series.",
 files=["MDLIB/RheologyDensity.c"],
 mech=[("ComputeMeanQuantitesForTimeSeries","MDLIB/RheologyDensity.c"),("LogTimeSeries","MDLIB/RheologyDensity.c")]),
dict(id="O01", title="Parallel runs compute what sequential runs compute",
 statement="With OpenMP on, every routine gives the result it must give sequentially, for every number of threads and every schedule. In marker to grid transfers and back, counting and reseeding, rheology and melting on the grid, residuals, assembly of the flow operator and its tangent by blocks of rows, heat and chemistry, free surface, norms and extremes: no thread writes what another reads or writes unless a lock or barrier orders it, every private variable is set before it is used, each contribution enters a sum once, and no thread writes beyond its own buffers, also when threads outnumber rows, cells or markers.",
 over=["schedules","inputs"], qtext="the scenarios of the other properties (2x2 to 7x7 grids, all fields) with teams of 3 to 24 threads, all accesses of each parallel region compared across threads",
 why="the tests are built without OpenMP, and a race shows in few schedules.",
 files=["MDLIB/ParticleRoutines.c","MDLIB/StokesAssemblyDecoupled.c","MDLIB/RheologyDensity.c","MDLIB/MiscFunctions.c","MDLIB/StokesRoutines.c"],
 mech=[("P2Mastah, CountPartCell","MDLIB/ParticleRoutines.c"),("BuildStokesOperatorDecoupled, BuildJacobianOperatorDecoupled, AllocateTempMatArraysDecoupled, MergeParallelMatrix","MDLIB/StokesAssemblyDecoupled.c"),("NonNewtonianViscosityGrid, UpdateDensity, ComputeMeanQuantitesForTimeSeries","MDLIB/RheologyDensity.c"),("MinMaxArrayVal, ArrayPlusArray","MDLIB/MiscFunctions.c"),("EvaluateStokesResidualDecoupled, RheologicalOperators","MDLIB/StokesRoutines.c")]),
dict(id="U01", title="Library flow laws are the published ones in every unit system",
 statement="Choosing a library number for power-law, diffusion, grain-boundary-sliding or Peierls creep, grain-size evolution or kinetics gives the phase the published parameters; times the units of their quantities they are the published SI values for any scales. The invariant correction reproduces the experiment (axial, simple shear, none), a negative number cancels it, forced values are used as given, user-defined laws have the stated viscosity or stress, other phases and other mechanisms of the phase keep theirs, unknown numbers stop the run.",
 over=["inputs","configurations"], qtext="all numbers of the six law libraries (0 to 60 tried for refusal), all four scales, all user-defined reference values with exponents 1, 2, 3, 3.5",
 why="tests use constant viscosities in one unit system and never read the library.",
 files=["MDLIB/FlowLaws.c"],
 mech=[("ReadDataPowerLaw, ReadDataLinear, ReadDataGBS, ReadDataExponential","MDLIB/FlowLaws.c"),("ReadDataGSE, ReadDataKinetics","MDLIB/FlowLaws.c"),("ScaleMe","MDLIB/InputOutput.c")]),
dict(id="M01", title="Markers carry their state with the material",
 statement="In each step, for every marker: accumulated strain of each mechanism and in total grows by its interpolated rate times the step; the deformation gradient follows F' = LF; the director turns with the layer it is normal to and keeps unit length; stress turns with the vorticity; peak T and P are running maxima; temperature, pressure, stress, density, melt and composition receive the change of the grid field, fractions kept in [0,1], with or without subgrid diffusion; every marker beyond its transition temperature, and no other, changes phase; inactive markers are left alone.",
 over=["inputs","histories"], qtext="3x3 nodes, a marker anywhere in the box, all nodal values, velocities gradients, steps and previous marker states; one marker per cell for subgrid diffusion",
 why="tests check velocity and pressure after one step and never the markers.",
 files=["MDLIB/RheologyParticles.c","MDLIB/ParticleRoutines.c"],
 mech=[("AccumulatedStrainII, DeformationGradient, FiniteStrainAspectRatio, UpdateMaxPT","MDLIB/RheologyParticles.c"),("UpdateParticleStress, Energy, Pressure, X, Phi, Density, GrainSize, DivThermal","MDLIB/RheologyParticles.c"),("TransmutateMarkers","MDLIB/ParticleRoutines.c")]),
dict(id="B01", title="Boundary conditions reach the grid exactly as the setup gives them",
 statement="Each velocity node, each cell beside a wall or free surface gets the type and value its callback returned, called with the right position, coordinates and field value; air stays air; wrong types stop the run. Applied conditions hold: prescribed velocity on the wall (midway between ghost and inner node for off-node walls), no shear where free. Flow through each side is summed from the west and east values. The pure- and simple-shear templates and the initial fields give the homogeneous flow of the background rate, and no pressure in the air.",
 over=["inputs","configurations"], qtext="all condition values, types, coordinates and field values on 4x4 and 5x4 nodes, several air patterns, every node misused in turn",
 why="tests use the two shear templates in a full box.",
 files=["MDLIB/Setup.c","MDLIB/StokesRoutines.c","MDLIB/GridRoutines.c"],
 mech=[("SetBCs and the shear templates","MDLIB/Setup.c"),("ApplyBC","MDLIB/StokesRoutines.c"),("InitialiseSolutionFields","MDLIB/GridRoutines.c")]),
dict(id="B02", title="The initial model is the one the setup describes",
 statement="Markers are laid out regularly in every cell below the surface (noise at most a tenth of the spacing), each property comes from its callback, called with the marker's position, temperature and adjusted phase, or is the documented default; phases that do not exist stop the run; saved initial markers reload exactly. Ellipses and rectangles contain the points inside them wherever they are centred. Grid coordinates span the box. Lithostatic pressure is the weight of the rock above; the thermal perturbation covers its ellipse.",
 over=["inputs","configurations"], qtext="all positions, values, boxes, densities and shapes; each callback present alone or absent alone; file names up to five characters",
 why="tests fix one inclusion setup.",
 files=["MDLIB/Setup.c","MDLIB/ParticleRoutines.c","MDLIB/GridRoutines.c","MDLIB/ThermalRoutines.c"],
 mech=[("SetParticles, IsEllipseCoordinates, IsRectangleCoordinates, DefaultTextFilename","MDLIB/Setup.c"),("PutPartInBox","MDLIB/ParticleRoutines.c"),("SetGridCoordinates, GridIndices, ComputeLithostaticPressure","MDLIB/GridRoutines.c"),("SetThermalPert","MDLIB/ThermalRoutines.c")]),
dict(id="F01", title="The free surface separates rock from air and moves with the rock",
 statement="For any gentle topography: cells above the surface are never rock, every rock cell has all its velocities and is wrapped by surface cells, shear stress lives only amid rock, temperature and composition follow. The surface passes through node heights averaged from its markers; flat stays flat; markers above it go; it takes the velocity of the rock below. Cut cells weigh their share. Erosion diffuses with its diffusivity, incision and sedimentation have their rates, sediment fills risen space undeformed; sparse spots get markers on the surface. No access leaves the arrays.",
 over=["inputs","configurations"], qtext="all surface heights, marker positions, velocities, rates and densities on 3x4 cells or fewer, one to three erosion substeps, every deficient column and up to three lost surface markers",
 why="no test has a free surface.",
 files=["MDLIB/FreeSurface.c","MDLIB/Setup.c"],
 mech=[("CellFlagging, MarkerChainPolyFit, CleanUpSurfaceParticles, SurfaceDensityCorrection","MDLIB/FreeSurface.c"),("InterpTopoPart2Grid, SurfaceVelocity, RemeshMarkerChain, CorrectTopoIni, KeepZeroMeanTopo","MDLIB/FreeSurface.c"),("DiffuseAlongTopography, AddPartSed","MDLIB/FreeSurface.c"),("BuildInitialTopography","MDLIB/Setup.c")]),
dict(id="M02", title="Reseeding and inflow keep every cell supplied without touching other markers",
 statement="When markers are reseeded, every seeding cell in the rock with fewer markers than its share gets one new marker in its centre, well supplied cells and air get none; the new marker takes phase, density and all other properties from the closest marker around it, or grid values where the method says so, and sediment above the initial surface. At inflow sides a marker follows each one that left the side column. Lost markers are reused first. Other markers stay exactly as they were, counting alone changes nothing, and full marker arrays stop the run, never overflow.",
 over=["inputs","histories"], qtext="2x2 cells, patterns of deficient cells, one marker anywhere, up to three lost markers, both reseeding methods, any gentle surface, all fill levels of the marker arrays",
 why="tests run one step and never reseed.",
 files=["MDLIB/ParticleRoutines.c"],
 mech=[("CountPartCell, CountPartCell_OLD","MDLIB/ParticleRoutines.c"),("AddPartCell2, FindClosestPhase2, AssignMarkerProperties","MDLIB/ParticleRoutines.c"),("ParticleInflowCheck","MDLIB/ParticleRoutines.c")]),
dict(id="N01", title="Layered rock is weaker along its layers, by its anisotropy factor",
 statement="For any layer orientation, stress is twice the effective viscosity times strain rate, the shear along the layers divided by the anisotropy factor; constant, dislocation, diffusion and exponential creep, elasticity and Drucker-Prager plasticity (linear overstress, dilation, cut-off) act in series, dissipation is stress times strain rate, viscosity limits hold, composition and density follow. Grid values are phase-fraction means with the old elastic stress carried. The factor is the phase's constant or its finite-strain aspect ratio up to a maximum. Directors start at the given angle.",
 over=["inputs","configurations"], qtext="all strain rates, pressures, factors and parameters at one material point, all or several orientations, each flow law; two phases on a 3x3 grid, three averages",
 why="tests use one orientation and one factor and compare norms after one step.",
 files=["MDLIB/AnisotropyRoutines.c","MDLIB/RheologyDensity.c"],
 mech=[("ViscosityConciseAniso, NonNewtonianViscosityGridAniso","MDLIB/AnisotropyRoutines.c"),("UpdateAnisoFactor, InitialiseDirectorVector, NormalizeDirector","MDLIB/AnisotropyRoutines.c"),("EffectiveStrainRate","MDLIB/RheologyDensity.c")]),
]
