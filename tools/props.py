"""Source of properties.jsonl and MANIFEST.json (python3 tools/gen.py)."""
PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), technique="", note=""):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                      mech=mech, state=state, observe=observe, technique=technique, note=note))


TECH = "explicit TLA+ specification (%s) model-checked with TLC; TLC-generated behaviours replayed in the real code; recorded traces judged by TLC"
NOTE = ("The specification is checked exhaustively for the stated small constants; conformance covers the generated "
        "behaviours and cases of one run, with real numbers projected to scaled integers against independent closed forms. ")

P("C01", "Coil fields are the superposition of the currents the machine carries",
  "For every machine built from any mix of coil kinds, solenoids, mirrored coils and circuits, and after any history of setting currents, turns and positions, the poloidal flux and both field components it returns at any point (scalars or arrays, directly or through precomputed responses) are the sum over conductors of current times turns times the field of a unit current loop at the conductor's present position. A machine whose currents are all zero produces exactly zero field. Currents, turns and positions read back as they were set.",
  ["inputs", "histories", "configurations"], "all machines of the ten layouts, all sequences of current/turn/position/control changes, all evaluation points away from conductors",
  "Tests evaluate one or two freshly built coils at one point; they never change turns or move a coil after construction, nor mix kinds within circuits.",
  ["freegs/coil.py", "freegs/shaped_coil.py", "freegs/filament_coil.py", "freegs/multi_coil.py", "freegs/pre_calc_coil.py", "freegs/machine.py", "freegs/gradshafranov.py"],
  [("Greens, GreensBr, GreensBz", "freegs/gradshafranov.py"), ("controlPsi/controlBr/controlBz of each coil kind", "freegs/coil.py and siblings"), ("psi, Br, Bz, createPsiGreens, calcPsiFromGreens", "freegs/machine.py")],
  [("cur, trn, pos", "current, turns and position of each conductor", "coil attributes; spec/Machine.tla")], ["Machine.psi/Br/Bz", "Machine.calcPsiFromGreens"], TECH % "Machine", NOTE)
P("C02", "Every coil of a circuit carries its multiplier times the circuit current",
  "At every moment, after any history of setting circuit currents and control flags, running the control system or moving coils, each coil in a circuit carries exactly its multiplier times the circuit's current, has the circuit's control flag, and the circuit's field is the sum of its coils' fields. Mirrored coil pairs behave as circuits with multipliers one and plus or minus one, the lower coil being the mirror image of the upper one.",
  ["histories", "configurations"], "all circuits of up to three coils of mixed kinds with positive, negative, fractional and zero multipliers, all histories",
  "Tests build one circuit and set one current.",
  ["freegs/machine.py"], [("Circuit.current / Circuit.control setters", "freegs/machine.py"), ("MirroredCoil", "freegs/machine.py")],
  [("cur, ctl", "current and control flag per element", "spec/Machine.tla")], ["Circuit.coils", "Circuit.psi/Br/Bz"], TECH % "Machine", NOTE)
P("C03", "The control vector is exactly the controlled coils in machine order",
  "The control system's vector of currents lists every controlled element of the machine exactly once, in machine order, and nothing else; the response vectors for flux and both field components have the same length and order, each entry being the field per Ampere of that element alone. Adjusting or setting control currents changes the corresponding elements by exactly the given amounts and leaves every uncontrolled element untouched.",
  ["histories", "configurations"], "all subsets of controlled elements, changed at any time, all current changes",
  "Tests use machines in which every coil is controlled and never toggle control.",
  ["freegs/machine.py"], [("controlAdjust, controlCurrents, setControlCurrents, controlPsi, controlBr, controlBz", "freegs/machine.py")],
  [("ControlSeq", "controlled elements in machine order", "spec/Machine.tla")], ["Machine.controlCurrents", "Machine.getCurrents", "Machine.controlPsi/Br/Bz"], TECH % "Machine", NOTE)
P("C08", "The Picard iteration reports convergence only when it converged",
  "The nonlinear solve returns successfully only if the last linear solve changed the flux, and the boundary flux, by less than the absolute or the relative tolerance (and, when asked to wait for one, only with a limited plasma); otherwise it goes on, and once the iteration limit is exceeded it raises a non-convergence error after exactly limit plus one solves. Each iteration hands the linear solve the blended flux of the previous two iterations, runs the control system once before the first and once after each unconverged solve and never after convergence, and checks for limiters exactly from the requested iteration on or once the plasma has been limited. On success the equilibrium is the one of the last solve and the convergence history has one correct entry per solve.",
  ["histories", "configurations", "schedules"], "every combination of tolerances, blending, iteration limit, limiter options and boundary, every sequence of answers of linear solve and control system",
  "Tests run the loop on two equilibria with default options and look only at the end result.",
  ["freegs/picard.py"], [("solve", "freegs/picard.py")], [("it, psi, bnd, everlim", "loop state", "spec/Picard.tla")], ["freegs.solve"], TECH % "Picard", NOTE)
P("C04", "Equilibrium flux and field are coils plus plasma at the present currents",
  "After any history of coil current changes and linear solves, the flux and poloidal field of an equilibrium, on the mesh and at arbitrary points (scalars or arrays), are those of the coils at the currents they carry now plus those of the plasma current of the last solve; changing coil currents does not change the plasma and solving does not change the coils. The field is derived from the flux (Br = -1/R dpsi/dZ, Bz = 1/R dpsi/dR), the toroidal field is f/R with the vacuum f outside the plasma core, and the total field is the root of the sum of squares. The reported plasma current is the integral of the current density of the last solve.",
  ["inputs", "histories", "configurations"], "all histories of current changes and solves, meshes of different sizes, both discretisation orders, all evaluation points inside the domain",
  "Tests evaluate one equilibrium straight after construction or solve; they never change currents afterwards and hardly look at the field between mesh points.",
  ["freegs/equilibrium.py", "freegs/machine.py"],
  [("psi, psiRZ, Br, Bz, Bpol, Btor, Btot, plasmaCurrent", "freegs/equilibrium.py"), ("calcPsiFromGreens", "freegs/machine.py")],
  [("cur, amp, shp", "coil currents, plasma amplitude and shape", "spec/Equil.tla")], ["Equilibrium.psi/psiRZ/Br/Bz/Btor/Btot"], TECH % "Equil", NOTE)
P("C09", "The linear solve satisfies the Grad-Shafranov equation and its boundary",
  "For every current density, mesh and domain, the plasma flux a linear solve leaves behind satisfies the Grad-Shafranov equation to the order of the chosen discretisation (fluxes which are polynomials within that order are reproduced exactly) and takes on the edge exactly the values its boundary condition prescribes: zero for a fixed boundary, the free-space flux of the plasma current for the free-boundary methods. The solve keeps the current density it was given, reports its integral as plasma current, and does not modify its inputs.",
  ["inputs", "histories", "configurations"], "all polynomial fluxes within the discretisation order, all meshes, domains, boundary methods and sequences of solves",
  "Tests check two fixed right-hand sides on one mesh each for convergence order; they never check the boundary methods against the true free-space flux, nor repeated solves.",
  ["freegs/equilibrium.py", "freegs/gradshafranov.py", "freegs/boundary.py", "freegs/multigrid.py"],
  [("Equilibrium.solve", "freegs/equilibrium.py"), ("GSsparse, GSsparse4thOrder, GSElliptic", "freegs/gradshafranov.py"), ("fixedBoundary, freeBoundary, freeBoundaryHagenow", "freegs/boundary.py")],
  [("poly, amp, shp", "the flux last solved for", "spec/GS.tla")], ["Equilibrium.plasma_psi", "Equilibrium.plasmaCurrent"], TECH % "GS", NOTE)
P("C12", "Critical points of the flux are all found, once, and correctly ordered",
  "For every smooth flux map whose critical points lie well inside the mesh, the analysis reports every O-point and every X-point exactly once and no other point, at the right position with the right flux, each being a null of the poloidal field. The first O-point is the one nearest the middle of the domain and the others follow by distance; the X-points are those the flux reaches monotonically on a straight line from the axis (all of them if discarding is switched off), in order of flux distance from the axis. The result does not depend on the sign of the flux and the inputs are not modified.",
  ["inputs", "configurations"], "all analytic flux maps of the family (0 to 8 critical points, rotated, of either sign, of different amplitude) on different meshes",
  "Tests look at one map with one O-point.",
  ["freegs/critical.py"], [("find_critical", "freegs/critical.py")], [("map", "set of critical points", "spec/Critical.tla")], ["critical.find_critical"], TECH % "Critical", NOTE)
P("C13", "The plasma core is the connected region inside the boundary flux",
  "For every flux map, the core mask is one exactly at the mesh points connected to the magnetic axis by steps along the mesh through points with flux inside the boundary flux without passing an X-point, and zero elsewhere, in particular in private flux regions; near an X-point membership is decided by the flux on a closed path around it. A boundary flux given explicitly takes precedence over the X-point's, the result is the same for the negated flux, and inputs are not modified.",
  ["inputs", "configurations"], "all patterns of points inside the boundary flux, axis positions and up to two X-points on small meshes",
  "Tests use one smooth map.",
  ["freegs/critical.py"], [("core_mask", "freegs/critical.py")], [("inn, core", "points inside the boundary flux and those reached", "spec/CoreMask.tla")], ["critical.core_mask"], TECH % "CoreMask", NOTE)
P("C15", "The plasma boundary is the X-point or the limiter, whichever comes first",
  "After every solve, with limiter checking switched on and a wall present, the boundary flux is that of the wall point with flux closest to the axis (ignoring wall points further from the midplane than three quarters of the X-point height) if it is closer to the axis than the X-point's, the plasma is then reported as limited and the contact point lies on the wall; otherwise the boundary flux is that of the primary X-point and the plasma is not limited. This holds for either sign of plasma current, any wall polygon, any mesh (square or not) and any history of switching limiter checking on and off and of changing the wall; without X-point and limiter there is no boundary. The core mask is the one for this boundary flux.",
  ["inputs", "histories", "configurations"], "all combinations of the flux maps, walls, meshes and signs, all histories of solves, of switching limiter checking and of changing the wall",
  "Tests have one limited equilibrium on a square mesh with positive current.",
  ["freegs/equilibrium.py", "freegs/machine.py", "freegs/critical.py"], [("_updatePlasmaPsi / updateBoundary", "freegs/equilibrium.py"), ("limit_points", "freegs/machine.py")],
  [("wall, check, res", "wall present, limiter checking, boundary selected", "spec/Boundary.tla")], ["Equilibrium.psi_bndry, psi_axis, is_limited, Rlim, Zlim, mask"], TECH % "Boundary", NOTE)
P("C10", "Profiles meet their constraints on every flux map and are consistent",
  "Whenever a constrained profile is evaluated on a flux map (whatever it was evaluated on before and whatever parameters were changed since), the resulting plasma current is the requested one and so is the axis pressure or the poloidal beta. The current density is R p' + ff'/(mu0 R) inside the plasma core and exactly zero outside; p' and ff' have the requested shape, pressure and f are their integrals with zero pressure and vacuum f (with its sign) at the boundary, for scalars, lists and arrays alike. Negative shape exponents are refused.",
  ["inputs", "histories", "configurations"], "all three profile kinds, integer exponents 1 to 3, both signs of current and toroidal field, diverted and limited maps, all histories of evaluations and parameter changes",
  "Tests evaluate each profile once on one map.",
  ["freegs/jtor.py", "freegs/equilibrium.py"], [("Jtor, pprime, ffprime, pressure, fpol of ConstrainPaxisIp, ConstrainBetapIp, ProfilesPprimeFfprime", "freegs/jtor.py")],
  [("ip, pax, fit", "parameters and those of the last evaluation", "spec/Profile.tla")], ["Equilibrium.Jtor, plasmaCurrent, pressure, fpol, pprime, ffprime"], TECH % "Profile", NOTE)
P("C11", "The control system finds the best allowed currents and touches nothing else",
  "For any machine state and plasma, running the control system changes only the currents of controlled elements, by the regularised least-squares solution for the requested X-points (zero field), equal-flux pairs and flux values; when there are enough controlled elements the constraints are then met. Current limits (given per machine element) and the total current limit are respected, within them the fit is the best possible, and limits that do not bind change nothing; fits to a two-dimensional flux map are the weighted least-squares currents, ignoring a constant offset. The plasma and the caller's constraint lists are not modified, and a control system without constraints is refused.",
  ["inputs", "histories", "configurations"], "all subsets of controlled elements, all combinations of constraints, regularisation and limits, all histories of current, control flag and plasma changes",
  "Tests run the control system inside one solve with all coils controlled and no limits.",
  ["freegs/control.py", "freegs/machine.py"], [("constrain.__call__, ConstrainPsi2D, ConstrainPsi2DAdvanced", "freegs/control.py"), ("controlAdjust, setControlCurrents", "freegs/machine.py")],
  [("cur, ctl, pl", "currents, control flags, plasma", "spec/Control.tla")], ["coil currents after calling the control system"], TECH % "Control", NOTE)
P("C05", "Sensors show the enclosed current, the field or the flux of the last measurement",
  "After any history of current changes, coil moves, solves, switching sensors on and off and measuring, every sensor shows the value of the last measurement taken while it was switched on (or what it was given at the start): a Rogowski sensor the total current (turns, multipliers and polarities counted) of the conductors inside its polygon, coils of finite size by the part inside, plus the plasma current inside it if an equilibrium was given; a field probe the component of the field of coils (and plasma) along its angle; a flux loop the flux at its position. Measuring changes nothing but the sensors.",
  ["inputs", "histories", "configurations"], "all coil kinds, polygons convex or not in either orientation, all histories",
  "Tests measure once with one machine of single-turn coils.",
  ["freegs/machine.py", "freegs/coil.py", "freegs/shaped_coil.py", "freegs/filament_coil.py", "freegs/multi_coil.py"],
  [("RogowskiSensor, PoloidalFieldSensor, FluxLoopSensor .get_measure, Machine.takeMeasurements", "freegs/machine.py"), ("inShape", "freegs/coil.py")],
  [("cur, pos, amp, on, meas", "currents, position, plasma, sensor status and readings", "spec/Sensors.tla")], ["Sensor.measurement"], TECH % "Sensors", NOTE)
P("C06", "An equilibrium written to an HDF5 file is read back unchanged",
  "Whatever a write accepted, reading the file gives back the equilibrium as it was at the time of writing, whatever happened to the live one since: every coil, circuit, solenoid with its label, kind, position, turns, multipliers, polarity, current and control flag (so the same field), the wall, domain and mesh, plasma flux bit for bit, plasma current and boundary method. Coils, shaped coils, filament coils, multi-filament coils, circuits of coils and solenoids can all be written; kinds a file has no form for are refused when writing, never altered. Neither writing nor reading changes the equilibrium written or the file read, a later write replaces the file, and the equilibrium read back can be changed, solved and written like any other.",
  ["inputs", "histories", "configurations"], "machines of every mix of element kinds, all histories of changes, solves, writes and reads over two files",
  "Tests write and read two machines of plain coils, circuits and solenoids straight away and compare with the code's own equality.",
  ["freegs/dump.py", "freegs/machine.py", "freegs/coil.py", "freegs/shaped_coil.py", "freegs/filament_coil.py", "freegs/multi_coil.py"],
  [("OutputFile.write_equilibrium, read_equilibrium", "freegs/dump.py"), ("to_numpy_array, from_numpy_array", "freegs/machine.py")],
  [("live, disk", "the equilibrium and what each file holds", "spec/Store.tla")], ["OutputFile.read_equilibrium", "datasets psi, plasma_psi, R, Z of the file"], TECH % "Store", NOTE)
P("C14", "Flux surfaces, safety factor and shape parameters are those of the flux map",
  "For every solved flux map with a boundary (X-point or limiter, either sign of current, X-points anywhere), the boundary curve has the requested number of points, goes once round the axis in equal angles and lies on the boundary flux; major and minor radius, aspect ratio, elongations, triangularities and Shafranov shift are those of that curve; the safety factor of a surface is f/(2 pi) times the integral of dl/(R^2 Bp) around it, for scalars, lists and arrays, with the sign of f; the toroidal flux inside a surface is the integral of f/R and its normalised root runs from 0 at the axis to 1 at the boundary; inner and outer boundary crossings at a height and whether the boundary cuts the wall are right. Asking changes nothing.",
  ["inputs", "histories", "configurations"], "all analytic flux maps of the family, walls, meshes and signs, all histories of solves and questions",
  "Tests ask for the safety factor of one diverted plasma and for no shape parameter on a known boundary.",
  ["freegs/equilibrium.py", "freegs/critical.py"], [("separatrix, q, tor_flux, rhotor, geometricAxis, minorRadius, elongation*, triangularity*, shafranovShift, innerOuterSeparatrix, intersectsWall", "freegs/equilibrium.py"), ("find_separatrix, find_safety, find_psisurface", "freegs/critical.py")],
  [("pts, asked", "boundary curve, last question", "spec/Shape.tla")], ["Equilibrium.separatrix, q, tor_flux, rhotor, shape methods"], TECH % "Shape", NOTE)
P("C22", "Volume, betas, inductances and energy are their defining integrals over the core",
  "For every solved flux map with a boundary and every pressure and f profile, plasma volume, poloidal betas (all three definitions), toroidal, total and normalised beta, internal inductances (all definitions), volume-averaged pressure, thermal energy, effective elongation and cylindrical safety factor equal their defining integrals over the plasma core, for either sign of current and field and on any mesh (up to the resolution of the core mask); 1/total beta is the sum of the inverses, the energy is 3/2 of average pressure times volume, and the inductance definitions differ only by their normalisation. Asking changes nothing.",
  ["inputs", "histories", "configurations"], "all analytic flux maps of the family, walls, meshes and signs, all histories of solves and questions",
  "Tests check none of these against a known integral.",
  ["freegs/equilibrium.py"], [("plasmaVolume, poloidalBeta*, toroidalBeta, totalBeta, betaN, internalInductance*, pressure_ave, w_th, qcyl, effectiveElongation", "freegs/equilibrium.py")],
  [("pts, asked", "boundary curve, last question", "spec/Shape.tla")], ["Equilibrium methods named"], TECH % "Shape", NOTE)
P("C07", "G-EQDSK and DivGeo files carry the equilibrium out and back",
  "A G-EQDSK or DivGeo file holds the equilibrium as it was when written: mesh and domain, flux relative to the axis in the standard order, axis, boundary flux, plasma current, vacuum field, wall, a closed boundary curve on the boundary flux, and pressure, f, p', ff' and q on the standard uniform grid from axis to boundary, for either sign of current and field, diverted or limited, square mesh or not. Reading a G-EQDSK file into a machine with the same coils reproduces that equilibrium (flux in the core, plasma current, q, profiles, coil currents, wall, limited or not) whatever currents the coils carried before, also from files on meshes of other sizes, in conventions with psi per turn, and (for diverted plasmas) onto another domain, which is at least as well resolved. Writing changes nothing, reading does not change the file.",
  ["inputs", "histories", "configurations"], "all closed-form flux maps and eight solved equilibria, all histories of solves, wall changes, writes in both formats and reads with all options",
  "There are no tests of these files at all.",
  ["freegs/geqdsk.py", "freegs/divgeo.py", "freegs/_divgeo.py", "freegs/critical.py", "freegs/machine.py"],
  [("write, read", "freegs/geqdsk.py"), ("write", "freegs/_divgeo.py")],
  [("sol, wall, disk, got", "equilibrium, wall, what each file holds, what was read", "spec/GFile.tla")], ["file contents", "freegs.geqdsk.read"], TECH % "GFile", NOTE)
P("C20", "Polygon geometry and quadrature are exact",
  "For every simple polygon (convex or not, of any size and position, in either orientation): the area is right with its sign (clockwise positive); splitting into triangles ends and gives two fewer clockwise triangles than vertices, made of the polygon's vertices, which do not overlap and cover exactly the polygon; quadrature points lie inside the polygon with non-negative weights summing to one and average polynomials exactly (degree 1, 2, 4 for 1, 3, 6 points per triangle), other rules are refused. Two open or closed curves that cross are reported as intersecting, curves without a common point are not. The polygons given are not modified.",
  ["inputs"], "all simple polygons up to 9 vertices on a 5 by 5 lattice, sampled, at four scales (metres to half a millimetre) and three positions; the reduction by ears exhaustively on a 3 by 3 lattice",
  "Tests use one square and one rectangle.",
  ["freegs/polygons.py", "freegs/quadrature.py", "freegs/shaped_coil.py"], [("intersect, area, clockwise, triangulate", "freegs/polygons.py"), ("triangle_quad, polygon_quad, average", "freegs/quadrature.py")],
  [("poly, rest, cut", "polygon, what is left of it, triangles cut off", "spec/Polygons.tla")], ["return values of the functions named"], TECH % "Polygons", NOTE)
P("C16", "Optimisation is differential evolution and returns the best candidate measured",
  "For every measure, set of controls, population size, crossover probability, weight and random numbers: the first candidates are the starting one and small variations of it; in each generation every agent gets one trial, in which at least one control (all of them for crossover 1, one for crossover 0) takes the value a + F (b - c) of three different other agents and the rest keep their own, within the limits of the controls; any agent can be picked and any control varied; an agent is replaced only by a better trial; the monitor is called once after each generation with the best candidate so far and the population; what is returned has the lowest score of everything measured and is still what was measured. The caller's object is never modified. For equilibria every candidate is solved with its own coil positions before it is measured, and candidates which fail count as worst. Coil position controls respect their limits (also zero) and move only their coil; weighted sums of measures are weighted sums.",
  ["inputs", "histories", "schedules"], "1 to 3 controls, 4 to 8 agents, all crossover classes and weights 0 to 2, five landscapes with infinite scores and plateaus, all random sequences (sampled); equilibria of TestTokamak",
  "Tests run one seeded quadratic problem and check only that the best score does not rise.",
  ["freegs/optimiser.py", "freegs/optimise.py"], [("optimise, mutate, pickUnique", "freegs/optimiser.py"), ("optimise, CoilRadius, CoilHeight, weighted_sum", "freegs/optimise.py")],
  [("pop, trial, best, gen", "agents, trials of this generation, best so far, generation", "spec/Optimiser.tla")], ["monitor callback, measure calls, returned object"], TECH % "Optimiser", NOTE)
P("C18", "Forces on conductors are those of everything else plus the hoop force",
  "After any history of current changes, coil moves and solves, the force reported on every coil, also each one in a circuit, is its total current times 2 pi R times the field of all other conductors (the others of its circuit and solenoids included) at its centre, and of the plasma if an equilibrium is given (coils inside its domain), plus the outward hoop force for its cross-section; without plasma the vertical forces on single-loop coils add up to zero; a coil without current feels none. The printed table and the largest-force and largest-current measures show these same values. Asking changes no current, circuit or flux.",
  ["inputs", "histories", "configurations"], "coils, shaped, filament and multi-filament coils, circuits and solenoids, fixed and current-limited areas, all histories",
  "Tests check the direction of the vertical force between two coils.",
  ["freegs/coil.py", "freegs/machine.py", "freegs/equilibrium.py", "freegs/optimise.py"], [("Coil.getForces", "freegs/coil.py"), ("Circuit.getForces, Machine.getForces", "freegs/machine.py"), ("getForces, printForces", "freegs/equilibrium.py"), ("max_coil_force, max_abs_coil_current", "freegs/optimise.py")],
  [("cur, pos, amp, shp", "currents, position, plasma", "spec/Forces.tla")], ["Machine.getForces, Equilibrium.getForces, printForces"], TECH % "Forces", NOTE)
P("C17", "The multigrid solver converges to the direct solution",
  "On every mesh with even interval numbers restriction is the full weighting of the nine neighbours and interpolation is bilinear (each other's transpose); for every right-hand side, boundary values, starting guess, number of levels, sweeps and cycles, the V-cycle solver reduces the error towards the solution of the linear system by a fixed factor per cycle, keeps the boundary values, leaves an exact solution alone, is never worse after more cycles, and is the direct solver on one level. Neither guess nor right-hand side is modified. An equilibrium using it gets the flux and current of the direct solver to that accuracy.",
  ["inputs", "configurations"], "integer arrays up to 9 by 13 for the transfer operators (exact); meshes 17 to 65, 1 to 4 levels, 1 to 5 cycles, four right-hand sides and guesses, Grad-Shafranov (second order) and Laplace operators; point spacings within a factor 2.2 of each other",
  "The multigrid code is not tested beyond one restriction and interpolation example.",
  ["freegs/multigrid.py", "freegs/equilibrium.py"], [("restrict, interpolate, createVcycle, MGJacobi, MGDirect, smoothMG", "freegs/multigrid.py"), ("setSolverVcycle", "freegs/equilibrium.py")],
  [("fine, coarse", "arrays on the two meshes", "spec/Multigrid.tla")], ["return values of the functions named", "Equilibrium.plasma_psi"], TECH % "Multigrid", NOTE)
P("C19", "Changing mesh or domain keeps the equilibrium and leaves the original alone",
  "Through any history of refining (doubled or to given sizes), coarsening, solving again and moving to another domain, from any of the equilibria made so far: the new equilibrium has the mesh and domain asked for (coarsening undoes refining and copies meshes that cannot be halved), the same machine, order, boundary condition, limiter setting, plasma current and profiles; its flux is that of its source exactly at shared points and to interpolation accuracy elsewhere; it solves exactly like one freshly made with these settings, also with the profiles of its source; on another domain the same plasma is reproduced. No other equilibrium, and not the caller's flux array, is ever modified.",
  ["inputs", "histories", "configurations"], "meshes 9 to 65 (square or not, with and without halvable sizes), orders 2 and 4, four boundary conditions, three maps and four currents; solved TestTokamak plasmas with three settings and four domains",
  "Tests never refine, coarsen or change the domain and look at the result.",
  ["freegs/equilibrium.py", "freegs/jtor.py"], [("refine, coarsen, newDomain, Equilibrium.__init__, solve", "freegs/equilibrium.py")],
  [("objs", "all equilibria made: mesh, domain, settings, current, flux, accuracy", "spec/Grid.tla")], ["return values of refine, coarsen, newDomain", "Equilibrium.plasma_psi, psiRZ, plasmaCurrent, pressure, fpol"], TECH % "Grid", NOTE)
P("C21", "Field line tracing follows the magnetic field and stops at the wall",
  "For every flux map, toroidal field of either sign and starting points of any shape: the positions returned at the given toroidal angles are those of the field line through the start (backward: at minus these angles), on its flux surface, winding poloidally by the safety factor; the length is the arc length and never shrinks; following in pieces is the same as at once and going back the same angle returns to the start. A line ends at the wall (or at the edge of the domain without a wall), never beyond it, and then stays; lines that do not meet it go on; points outside do not move. Scrape-off layer lines start at the given distances outside the outboard boundary at the height of the axis. Nothing is modified.",
  ["inputs", "histories", "configurations"], "eight flux maps, five walls (also not around the middle of the domain), three toroidal fields of either sign, closed and open lines up to 6 turns per piece",
  "Field line tracing is not tested.",
  ["freegs/fieldtracer.py", "freegs/equilibrium.py"], [("FieldTracer.follow, fieldDirection, wallDomain, eqDomain, traceFieldLines", "freegs/fieldtracer.py")],
  [("offset, total, lo, hi", "angle from the start, length, walls", "spec/FieldLine.tla")], ["FieldTracer.follow", "traceFieldLines"], TECH % "FieldLine", NOTE)
P("C23", "A converged solve is the equilibrium asked for, whatever came before",
  "Through any history of freegs.solve calls on equilibria made anew, with kicked coil currents or left by other solves: when solve returns, the plasma flux satisfies the Grad-Shafranov equation with the current of the profiles inside the core and is the flux of that current at the edge of the domain; the plasma current is the one asked for and the profile constraint (axis pressure or poloidal beta) is met; X-points are where asked and the points of equal flux have equal flux (when the coils can provide it). Requests that differ only by the scale or the sign of the current (pressure with its square) or by how the machine's conductors are modelled have the same normalised answer, in every history; solving again what is solved changes nothing and takes few iterations; freezing the profiles found as p' and ff' keeps the equilibrium. The convergence data returned is that of this solve.",
  ["inputs", "histories", "configurations"], "three shapes, two profile constraints with two parameters each, currents of both signs and three sizes, three meshes, two boundary conditions, two equivalent machines, blending; convergence itself is claimed for new equilibria only",
  "Tests solve one or two configurations once and check a few numbers of them.",
  ["freegs/picard.py", "freegs/equilibrium.py", "freegs/jtor.py", "freegs/control.py", "freegs/machine.py", "freegs/gradshafranov.py", "freegs/boundary.py", "freegs/critical.py"],
  [("solve", "freegs/picard.py"), ("Equilibrium.solve, plasmaCurrent", "freegs/equilibrium.py"), ("ConstrainPaxisIp, ConstrainBetapIp, ProfilesPprimeFfprime", "freegs/jtor.py"), ("constrain", "freegs/control.py")],
  [("conf, state, book", "mesh and boundary condition, last request solved, the answer of every request so far", "spec/Solution.tla")], ["Equilibrium after freegs.solve: plasma_psi, psi_axis, psi_bndry, plasmaCurrent, pressure, coil currents", "convergence info returned"], TECH % "Solution", NOTE)
