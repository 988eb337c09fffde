"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

AERO = "aerokit/aero/"
p("A01", "Isentropic ratios follow the perfect-gas law and invert exactly",
  "For every Mach number and specific heat ratio, the total-to-static temperature and pressure ratios equal the perfect-gas isentropic relations, are mutually consistent (pressure ratio is the temperature ratio to the power gamma/(gamma-1)) and never fall below one. The inverse functions return the non-negative Mach number whose ratio is the one given, and the velocity from Mach number and total temperature satisfies the total enthalpy balance with the given gas constant.",
  ["inputs"], "All Mach in [0, 1000], gamma in (1, 2], total temperatures and gas constants > 0, scalars or arrays.",
  "Tests sample Mach 2-3 at gamma 1.4 only; the relation has to hold on the continuum of Mach and gamma.",
  [AERO+"Isentropic.py"], [("closed forms", AERO+"Isentropic.py")], ["return values of the ratio, inverse and velocity functions, called directly or by any other module"])
p("A02", "Mass-flow function and area ratio describe the same steady isentropic flow",
  "For every Mach number and specific heat ratio, the reduced mass-flow function is the one of a perfect gas, and the area ratio to the sonic throat equals the reduced mass flow at Mach one divided by the reduced mass flow at that Mach number. The area ratio is one at Mach one, above one elsewhere, decreasing in the subsonic and increasing in the supersonic range. A flow in the other direction (negative Mach number) has the opposite mass flow and area ratio.",
  ["inputs"], "All Mach in (0, 1000] and their opposites, gamma in (1, 2], scalars or arrays.",
  "Tests evaluate a handful of Mach numbers at gamma 1.4.",
  [AERO+"MassFlow.py"], [("closed forms", AERO+"MassFlow.py")], ["return values of the mass-flow and area-ratio functions"])
p("A03", "Area-ratio inversion returns the Mach number on the requested branch",
  "For every area ratio of at least one and every specific heat ratio, the subsonic inversion returns a Mach number in (0, 1] and the supersonic inversion one of at least 1, each reproducing the area ratio. The generic inversion returns the branch selected by its initial Mach number, element by element for arrays.",
  ["inputs"], "Area ratios from 1 to 1e6 (subsonic) or up to Mach 50 (supersonic), gamma in [1.05, 2], near-sonic values, scalars and arrays.",
  "Tests check round trips at gamma 1.4 for a few ratios; convergence and branch selection depend on gamma, ratio and starting point.",
  [AERO+"MassFlow.py"], [("initial guess and iteration", AERO+"MassFlow.py Mach_Sigma")], ["return values of the three inversion functions"])
p("A04", "Normal shock ratios conserve mass, momentum and energy and create entropy",
  "For every upstream Mach number above one and specific heat ratio, the static pressure, density, temperature ratios and the downstream Mach number across a normal shock satisfy conservation of mass, momentum and total enthalpy simultaneously. The total pressure ratio is the one implied by them, is at most one and decreases with the Mach number, and the downstream Mach number is subsonic and returns the upstream one when applied twice.",
  ["inputs"], "All normal Mach numbers in [1, 1000], gamma in (1, 2], scalars or arrays, including gamma different from the default.",
  "Tests check a few table values at gamma 1.4 where a formula with a wrong gamma or coefficient can agree.",
  [AERO+"ShockWave.py"], [("Rankine-Hugoniot closed forms", AERO+"ShockWave.py")], ["return values of the jump functions, called directly or from other modules"])
p("A05", "Normal shock inversions recover the shock Mach number from a pressure ratio",
  "For every shock Mach number and specific heat ratio, the Mach number computed from the static pressure ratio, and the one computed from the total pressure ratio, is the Mach number of the shock that produces this ratio. The inversion from total pressure ratio converges for weak as well as strong shocks; a ratio above one, which no shock produces, is reported in the output and gives Mach number one.",
  ["inputs"], "Static pressure ratios up to 1e7, total pressure ratios of Mach in [1.001, 30] with gamma in [1.05, 1.7], explicit or default gamma.",
  "A single round trip at gamma 1.4 is tested; iterative convergence depends on gamma and on how near the sonic point and the strong limit the target is.",
  [AERO+"ShockWave.py", AERO+"IterativeSolve.py"], [("secant iteration", AERO+"IterativeSolve.py")], ["return values of the two inverse functions"])
p("A06", "Oblique shock polar is consistent with the normal shock relations",
  "For every upstream Mach number, shock angle and specific heat ratio, the flow deflection preserves tangential velocity while the normal component obeys the normal shock relations; giving the pressure ratio instead of the angle yields the same deflection and a downstream Mach number equal to that of the full jump. The detachment point is the maximum of the deflection over all shock angles, and the sonic point has a downstream Mach number of exactly one.",
  ["inputs"], "Mach in [1.01, 1000], shock angles between the Mach angle and 90 degrees, gamma in (1, 2], scalars or arrays.",
  "Tests check some points at gamma 1.4; extremality and the sonic condition must hold for the continuum of Mach and gamma.",
  [AERO+"ShockWave.py"], [("theta-beta-Mach relation and closed-form extrema", AERO+"ShockWave.py")], ["return values of deflection, detachment, sonic and downstream Mach functions"])
p("A07", "Oblique shock angle inversion returns the weak, strong or signed solution",
  "For every Mach number and attached deflection, the weak solution lies between the Mach angle and the detachment angle, the strong one between the detachment angle and 90 degrees, and both reproduce the deflection. The iterative solver returns the weak angle with the sign of the deflection (or the strong one when started near it, for one or several deflections), and the closed-form solvers report no solution above the maximum deflection, in the output and by returning the Mach angle (weak) or 90 degrees (strong).",
  ["inputs"], "Mach in [1.01, 50], deflections from 0 to 99.9 percent of the maximum (either sign for the iterative solver) and above the maximum for the closed forms, gamma in [1.05, 1.7].",
  "Tests check a few couples at gamma 1.4; the choice of root and convergence depend on the whole (Mach, deflection, gamma) range.",
  [AERO+"ShockWave.py", AERO+"IterativeSolve.py"], [("cubic roots and secant iteration", AERO+"ShockWave.py")], ["return values of the three inversion functions"])
p("A08", "Conical shock solutions satisfy the Taylor-Maccoll equations and terminate",
  "For every Mach number, cone shock angle and specific heat ratio, the cone angle computed is the one where the conical flow downstream of the shock becomes radial, and the computation terminates. The inversions for the shock angle and for the upstream Mach number return a value whose cone angle is the one given; a cone angle beyond detachment is reported in the output and gives 90 degrees.",
  ["inputs"], "Mach in [1.05, 20], shock angles from the Mach angle (no cone) to 90 degrees, compared with the equations from 1e-3 of the way, gamma in [1.1, 1.67]; inversions on the weak branch.",
  "Tests check three table values; adaptive integration can stall or stop early for specific inputs.",
  [AERO+"ShockWave.py", "aerokit/common/_ode.py"], [("adaptive integration to the cone", AERO+"ShockWave.py"), ("embedded Runge-Kutta step", "aerokit/common/_ode.py")], ["return values of the three conical functions, number of executed jumps"])
p("A09", "Prandtl-Meyer angle follows its differential law and inverts exactly",
  "For every supersonic Mach number and specific heat ratio, the Prandtl-Meyer angle vanishes at Mach one and its derivative with the Mach number is the one of a simple isentropic wave. The inverse returns the Mach number of the given angle from zero up to near the maximum turning angle, and the Mach number from the difference of this angle and the Mach angle is consistent with both.",
  ["inputs"], "Mach in [1, 1000] (up to 60 for the inverse), gamma in (1, 2], scalars and arrays, angles near zero and near the maximum.",
  "Tests check round trips for a few Mach numbers at gamma 1.4.",
  [AERO+"Supersonic.py"], [("closed form and Newton iteration", AERO+"Supersonic.py")], ["return values of the three functions"])
p("A10", "Simple-wave pressure and deflection changes are isentropic and consistent",
  "For every supersonic upstream Mach number, the pressure ratio through an isentropic turn preserves total pressure and changes the Prandtl-Meyer angle by exactly the turn: compressive turns (positive deflection) raise the pressure, expansions lower it. The deflection computed from a pressure ratio is the change of Prandtl-Meyer angle of the isentropic flow with that ratio, so both functions describe the same wave with opposite sign conventions.",
  ["inputs"], "Mach in [1.01, 30], turns that keep the flow supersonic and below maximum turning, gamma in [1.05, 1.7], scalars and arrays.",
  "Tests check a few values; sign conventions and gamma propagation through composed functions are only fixed by a relation over all inputs.",
  [AERO+"Supersonic.py"], [("composition of isentropic and Prandtl-Meyer relations", AERO+"Supersonic.py")], ["return values of both functions"])
p("A11", "Fanno flow ratios satisfy adiabatic constant-mass-flux flow with friction",
  "For every Mach number and specific heat ratio, the ratios to the sonic state (static pressure, temperature, density, velocity, total pressure) satisfy the gas law, constant mass flux and constant total temperature, and all equal one at Mach one. The maximum friction parameter obeys the friction momentum balance along the duct, and the normalised entropy is the one of these ratios with its maximum, zero, at Mach one.",
  ["inputs"], "Mach in [1e-5, 1000], gamma in (1, 2], scalars or arrays.",
  "Tests check a few table values at gamma 1.4.",
  [AERO+"Fanno.py"], [("closed forms", AERO+"Fanno.py")], ["return values of the seven functions"])
p("A12", "Rayleigh flow ratios satisfy frictionless heat addition and invert by branch",
  "For every Mach number and specific heat ratio, the ratios to the sonic state satisfy the gas law, constant mass flux and constant impulse, the total ratios are the isentropic ones, the normalised entropy is the one of these ratios, and all ratios equal one at Mach one. The maximum heating ratio is the inverse of the total temperature ratio, and the two inversions return the subsonic or supersonic Mach number of a total temperature ratio.",
  ["inputs"], "Mach in [1e-5, 1000], gamma in (1, 2], total temperature ratios attainable on each branch, scalars or arrays.",
  "Tests check a few table values at gamma 1.4.",
  [AERO+"Rayleigh.py"], [("closed forms", AERO+"Rayleigh.py")], ["return values of the ten functions"])
p("A13", "Thrust function is the normalised impulse and inverts on both branches",
  "For every Mach number and specific heat ratio, the thrust function equals the flow impulse divided by total pressure and throat area. Its inverse returns the Mach number of a given thrust function value on the subsonic or supersonic branch selected by the initial Mach number.",
  ["inputs"], "Mach in [1e-5, 1000] (inverse in [0.02, 20] with gamma in [1.05, 1.7]), initial Mach on the same branch.",
  "No test imports this module.",
  [AERO+"Propulsion.py"], [("closed form and inversion", AERO+"Propulsion.py")], ["return values of both functions"])
p("B01", "A 1-D gas state keeps its gas and its derived quantities agree",
  "For every 1-D state, speed of sound, Mach number, mass flow, characteristic speeds, total pressure and total temperature are those of its density, velocity, pressure and specific heat ratio. A state defined from total quantities with a Mach number, velocity or pressure reproduces these quantities; copies, elements, shocked and isentropically changed states keep the specific heat ratio, and satisfy respectively the shock conservation laws and constant total pressure and temperature; the source state is unchanged.",
  ["inputs", "histories"], "States with density, pressure > 0, any velocity (for total quantities below the limit velocity), gamma in (1, 2], scalar or array fields, sequences of constructions on one object.",
  "Tests use the default gamma and a few values, so a state that loses its gamma is not visible.",
  [AERO+"model1D.py"], [("state class", AERO+"model1D.py")], ["accessors of state objects"],
  [("gas state", "density, velocity, pressure, gamma", AERO+"model1D.py")])
p("B02", "Unsteady wave relations conserve across shocks and keep Riemann invariants",
  "For every state, the velocity change and density given by the shock relations for a final pressure satisfy, with the shock speed they imply, conservation of mass, momentum and energy; those given by the expansion relations preserve entropy and the Riemann invariant. Mirrored and copied states keep density, pressure and gamma, the mirror reversing velocity, and copies are independent of the original.",
  ["inputs"], "States with density, pressure > 0, any velocity, gamma in (1, 2], final pressures above (shock) or below (expansion) the initial one.",
  "Tests check a few states at gamma 1.4.",
  [AERO+"unsteady1D.py"], [("jump relations", AERO+"unsteady1D.py")], ["return values of methods of unsteady states"])
p("C01", "Riemann problem star states are connected by physically valid waves",
  "For every pair of gas states that does not open a vacuum, the star pressure and velocity are common to both sides and each side is connected to its initial state by a shock satisfying the conservation laws if pressure rises or by an isentropic fan keeping the Riemann invariant if it falls. The fastest wave speeds are those of these waves, and the solution is covariant under mirror and Galilean transformations. It does not depend on what becomes of the given states afterwards.",
  ["inputs"], "Density and pressure ratios up to 1e8, Mach numbers up to several units, different gammas on each side in [1.05, 1.7], identical and near-vacuum states.",
  "Tests solve half a dozen problems at gamma 1.4; convergence depends on strength and gamma.",
  ["aerokit/instance/riemann.py", AERO+"unsteady1D.py"], [("star pressure solution", "aerokit/instance/riemann.py")], ["star state and wave speed accessors"])
p("C02", "Sampled Riemann solution is the self-similar entropy solution",
  "At every position over time, the sampled solution equals the exact self-similar one: initial states outside the waves, star states on each side of the contact, isentropic fans inside expansions. The gas of each sampled point is that of the side of the contact it lies on, and the samples integrate to the conserved totals given by the initial states and their fluxes.",
  ["inputs"], "All pairs of states without vacuum, any sample positions inside, between and outside waves, any array length, different gammas on each side.",
  "No test samples a solution.",
  ["aerokit/instance/riemann.py"], [("piecewise sampling", "aerokit/instance/riemann.py")], ["sampled state fields"])
p("C03", "Inflow problem satisfies both the inlet totals and the outgoing wave",
  "For every internal state and inlet total pressure and temperature that let the flow enter, the computed state at the inlet has exactly the given total pressure and temperature and the same pressure and velocity as the state behind the wave that propagates in the internal state. That wave is a valid shock or isentropic fan, the entering velocity is not negative, and the returned wave speeds are those of the solution.",
  ["inputs"], "Internal states with |Mach| < 0.95, inlet totals allowing inflow, gamma in [1.1, 1.67].",
  "No test uses this module.",
  ["aerokit/instance/unsteady_inflow.py", AERO+"model1D.py"], [("inflow solution", "aerokit/instance/unsteady_inflow.py")], ["accessors of the inflow problem"])
p("D01", "Nozzle regime limits and exit Mach numbers follow from one-dimensional flow",
  "For every exit-to-throat area ratio and specific heat ratio, the three limiting pressure ratios (choked subsonic, shock at exit, adapted supersonic) are those of isentropic flow and a normal shock at the exit, and are ordered. For every pressure ratio the exit Mach number, and the Mach number of the flow adapted to the outside pressure, conserve mass flow through the throat and match the outside pressure in each regime.",
  ["inputs", "configurations"], "Area ratios in (1, 50], pressure ratios in (1, 1000] across all regimes, gamma in [1.1, 1.67] when given, default gas otherwise.",
  "Tests check one area ratio and four pressure ratios; the regimes are separated by thresholds that depend on area ratio and gamma.",
  ["aerokit/instance/nozzle.py"], [("regime limits", "aerokit/instance/nozzle.py")], ["return values of the limit and exit Mach functions"])
p("D02", "Nozzle flow fields conserve mass flow and match the exit pressure",
  "For every convergent-divergent section law, pressure ratio and gamma, the Mach number, static and total pressure fields of a nozzle have a uniform mass flow and isentropic static pressure, are subsonic upstream of the throat and, once choked, sonic at the throat. The exit static pressure matches the given pressure ratio in subsonic and internal-shock regimes, where total pressure drops once by the loss of a normal shock standing in the divergent; beyond that, the divergent is fully supersonic and isentropic. This holds for each pressure ratio requested in turn on one nozzle, repeated or not.",
  ["inputs", "histories"], "Section laws with 3 to 3000 points of floats or integers and a single throat, area ratios in (1, 30], pressure ratios across all regimes, gamma in [1.1, 1.67], repeated changes of pressure ratio on one nozzle.",
  "Tests check only that one case contains no NaN.",
  ["aerokit/instance/nozzle.py"], [("field construction by regime", "aerokit/instance/nozzle.py")], ["Mach, static and total pressure fields"])
p("E01", "Chebyshev differentiation is exact on polynomials of representable degree",
  "For every number of collocation points and interval, the points run from the first to the second bound with the Chebyshev distribution, and the differentiation matrix of any order differentiates exactly every polynomial of degree lower than the number of points. Matrices do not depend on the order in which they were requested.",
  ["inputs", "histories"], "2 to 160 points, odd and even, any interval in either direction, derivative orders 1 to 4, any sequence of requests.",
  "Tests differentiate a few functions for a few sizes with a loose tolerance.",
  ["aerokit/common/numspectral.py"], [("differentiation matrices", "aerokit/common/numspectral.py")], ["points and matrices"],
  [("matrix cache", "matrices computed so far", "aerokit/common/numspectral.py")])
p("E02", "Chebyshev interpolation and fitting reproduce polynomials",
  "For every collocation, interpolating nodal values of a polynomial of representable degree to any point of the interval returns the polynomial, and fitting scattered samples of such a polynomial returns its nodal values; the fit of any other samples is their least squares polynomial, which goes through them when they are few. Interpolation at the nodes returns the data, and the mapping between the reference and physical interval is consistent with the points.",
  ["inputs"], "2 to 100 points (25 for fits), any interval in either direction, samples covering all or part of it, polynomials up to the representable degree, any evaluation points inside the interval.",
  "Tests use one function and a loose tolerance.",
  ["aerokit/common/numspectral.py"], [("Vandermonde solve and least squares", "aerokit/common/numspectral.py")], ["interpolated and fitted values"])
p("E03", "ODE integrators reach the end point with their order of accuracy",
  "For every smooth system, interval and initial step, the integrators return abscissas that start at the initial point, progress monotonically and end at the requested end point, and values whose error decreases with the classical fourth order for the fixed step or stays commensurate with the tolerance for the adaptive one, whose single step is of fifth order. A polynomial right-hand side of low degree is integrated exactly. Right-hand sides may return the same array at every call or integrate another system themselves, and integer data are accepted.",
  ["inputs"], "Linear and nonlinear systems of 1 to 6 unknowns, active or passive, in any order, steps not dividing the interval, tolerances 1e-4 to 1e-10, stiff enough to reject steps, increasing abscissas for the fixed step and both directions for the adaptive one.",
  "No test covers the integrators.",
  ["aerokit/common/_ode.py"], [("Runge-Kutta schemes", "aerokit/common/_ode.py")], ["returned abscissas and values"])
p("E04", "Secant solver returns a root when it does not report failure",
  "For every smooth monotone function whose slope is bounded above and below, and every starting point, the solver either returns a point where the function equals the target within the tolerance it was given, or prints that the maximum number of iterations was reached; it always terminates in a bounded number of evaluations. It works element by element for arrays of targets and of starting points, and for functions which call the solver themselves.",
  ["inputs"], "Monotone functions with bounded slopes, targets and starting points of any size including small ones, tolerances 1e-3 to 1e-10.",
  "The solver is only exercised indirectly through a few shock relations.",
  [AERO+"IterativeSolve.py"], [("iteration", AERO+"IterativeSolve.py")], ["return value, printed failure, calls to the function"])
p("F01", "1-D Euler stability operator is the linearisation of the Euler equations",
  "For every base state, uniform or not, the interior rows of the operator matrices are the exact linearisation of the one-dimensional Euler equations in density, velocity and pressure about that state, with its own gamma. For a uniform periodic flow the resulting eigenvalues are the acoustic and entropy frequencies of the channel.",
  ["inputs", "configurations"], "Smooth base states on 5 to 40 points, any interval, |Mach| < 2, gamma in [1.1, 1.67].",
  "Tests check eigenvalues for one uniform flow at gamma 1.4, where base gradient terms vanish.",
  ["aerokit/stability/Euler.py"], [("operator assembly", "aerokit/stability/Euler.py")], ["operator matrices, eigenvalues"])
p("F02", "Euler boundary rows state exactly the declared boundary conditions",
  "For symmetric, periodic and shock boundaries, the boundary rows of the operators vanish exactly on perturbations that satisfy the declared condition: zero velocity and zero density and pressure gradients, equality of values and slopes at both ends, or the linearised shock relations with the shock displacement as additional unknown. All other rows are those of the interior equations.",
  ["inputs", "configurations"], "All supported combinations of boundary types, smooth base states, shock Mach numbers 1.1 to 5, upstream Mach gradients of either sign, gamma in [1.1, 1.67].",
  "Tests only use periodic conditions.",
  ["aerokit/stability/Euler.py"], [("boundary rows", "aerokit/stability/Euler.py")], ["operator matrices"])
p("F03", "Orr-Sommerfeld operator and spectrum follow the viscous parallel-flow equation",
  "For every velocity profile, wavenumber and Reynolds number, the interior rows of the operator matrices represent the Orr-Sommerfeld equation and the boundary rows no slip and no penetration at both walls. Poiseuille flow reproduces the reference spectrum independently of the resolution, with modes symmetric under the sign of the wavenumber.",
  ["inputs", "configurations"], "Smooth polynomial profiles, wavenumbers 0.1 to 3, Reynolds numbers 10 to 1e4, 12 to 101 points, any interval.",
  "Tests check two eigenvalues at one Reynolds number with 1e-3 tolerance.",
  ["aerokit/stability/OrrSommerfeld.py"], [("operator assembly", "aerokit/stability/OrrSommerfeld.py")], ["operator matrices, eigenvalues"])
p("F04", "Eigenmodes solve the declared problem and selection returns the right ones",
  "Every finite eigenpair returned satisfies the generalised eigenvalue problem of the operator matrices with the documented time convention. Selection returns exactly the modes in the requested window with their own vectors and an ordering sorted by increasing real part or decreasing imaginary part, and refinement of an approximate eigenpair converges to an eigenpair of the problem without changing any global setting.",
  ["inputs", "histories"], "Models of every kind and random dense operators, any window, both sortings, perturbed eigenpairs.",
  "Tests check one 3x3 operator and the leading modes of two models.",
  ["aerokit/stability/_base.py"], [("solve, select and converge", "aerokit/stability/_base.py")], ["returned values, vectors, order"])
p("F05", "Stability operators always reflect the current base state and boundaries",
  "After any sequence of setting base states, setting boundary conditions, computing operators and solving, the matrices and eigenvalues are those of a fresh model with the last base state and boundary conditions. The caller's boundary descriptions and base state are never modified, unknown boundary types or parameters are refused, and missing or one-sided periodic ones raise an error.",
  ["histories"], "Random sequences of 3 to 12 operations on each model.",
  "Tests build each model once.",
  ["aerokit/stability/_base.py", "aerokit/stability/Euler.py", "aerokit/stability/OrrSommerfeld.py"], [("operator caching", "aerokit/stability/_base.py")], ["operator matrices and eigenvalues along the sequence"],
  [("operators", "cached matrices", "aerokit/stability/_base.py")])
p("G01", "Turbojet and gas generator cycles close every energy balance",
  "For every design and flight condition, inlet, compressor, combustor, turbine and nozzle stations satisfy their pressure losses, polytropic efficiencies and energy balances: combustion heat release with its efficiency, and turbine power equal to compressor power through the shaft efficiency. Jet Mach number and velocity, thrust, specific consumption and efficiencies follow from these stations, and overall efficiency is the product of thermal and propulsive ones.",
  ["inputs", "configurations"], "Pressure ratios 2 to 50, feasible turbine temperatures, all losses and efficiencies in (0.7, 1], different cold and hot gases, flight Mach 0 to 2.5, repeated updates.",
  "No test covers the engine package.",
  ["aerokit/engine/gasgenerator.py", "aerokit/engine/turbojet.py"], [("station computation", "aerokit/engine/gasgenerator.py")], ["station attributes and performance methods"])
p("G02", "Turbofan cycle shares power and thrust between core and bypass consistently",
  "For every design and flight condition, the power taken by the low-pressure turbine is the given fraction of the available expansion and drives the fan through the shaft efficiency. Both nozzles apply their pressure loss and expand to ambient pressure, and thrust, kinetic power and efficiencies account for both streams.",
  ["inputs", "configurations"], "Bypass ratios 0.5 to 12, fan power ratios 0.1 to 0.9, all losses and efficiencies in (0.7, 1], flight Mach 0 to 0.9, repeated updates.",
  "No test covers the engine package.",
  ["aerokit/engine/turbofan.py", "aerokit/engine/turbojet.py"], [("station computation", "aerokit/engine/turbofan.py")], ["station attributes and performance methods"])
p("G03", "Staged turbofan cycles close energy balances and agree with the direct ones",
  "For every design, the staged cycles with a given fan pressure ratio or a given fan power share satisfy each component's law and power balance, and give the same performances as the direct computation of the same cycle. The ideal optimum fan temperature ratio maximises the thrust of an ideal turbofan. Stages executed one by one, in blocks or repeatedly give the same result, and a stage whose inputs are not ready changes nothing; after the design is changed, running the stages again gives the cycle of the new design.",
  ["inputs", "histories"], "Bypass ratios 1 to 12, core pressure ratios 10 to 45, feasible turbine temperatures and fan pressure ratios, any order of stage calls.",
  "No test covers the engine package.",
  ["aerokit/engine/Cycle_Turbofan.py", "aerokit/engine/propu_be.py", "aerokit/engine/propu_be_double_corps.py"], [("stage machine", "aerokit/engine/Cycle_Turbofan.py")], ["station attributes, printed and returned performances"],
  [("current stages", "progress of core and fan streams", "aerokit/engine/Cycle_Turbofan.py")])
p("H01", "Real gas and kerosene functions are thermodynamically consistent",
  "At every temperature, the derivative of enthalpy is the heat capacity, the derivative of the entropy function is heat capacity over gas constant, temperature and ln 10, and the specific heat ratio is that of the heat capacity. For burnt kerosene, the same holds and the effective heating value decreases with temperature by exactly the difference in heat capacity.",
  ["inputs"], "Temperatures from 200 to 3000 K.",
  "No test covers these modules.",
  [AERO+"ThermoRealGas.py", AERO+"ThermoKerosen.py"], [("polynomial fits", AERO+"ThermoRealGas.py")], ["return values"])
p("H02", "Degree trigonometry equals radian trigonometry of the converted angle",
  "For every angle in degrees the trigonometric functions equal the standard ones of the angle converted to radians, and inverse functions return degrees in the principal range, with the two-argument arctangent in the correct quadrant.",
  ["inputs"], "Any finite angle, any argument in the domain, scalars and arrays, all quadrants.",
  "Tests check a few remarkable angles.",
  [AERO+"degree.py"], [("conversions", AERO+"degree.py")], ["return values"])
p("H03", "Default gas settings are an isolated, restorable configuration",
  "Setting, saving and restoring the default gas always gives back the last saved specific heat ratio and gas constant, whatever happened between. Results computed with an explicit specific heat ratio never depend on the default gas, results computed without one use the default gas in force, and no computation changes the default gas.",
  ["histories", "configurations"], "Any sequence of set, save, restore and computation calls over the public functions.",
  "Tests cover one save and restore, and never compute with a changed default.",
  ["aerokit/common/defaultgas.py", "aerokit/instance/nozzle.py"], [("module globals", "aerokit/common/defaultgas.py")], ["default gas accessors, results of public functions"],
  [("default gas", "gamma and r, saved values", "aerokit/common/defaultgas.py")])
p("H04", "Variable denomination database behaves as a consistent dictionary",
  "After any sequence of selecting a software, adding and changing variables, looking a variable up in any of the three ways and whatever its capital letters returns the current denomination; unknown variables, duplicate additions and unknown softwares raise an error and change nothing, and selecting a software restores its original names. The derived expressions evaluate to the perfect-gas total pressure, temperature, entropy, velocity, sound speed, Mach number and flow angle of the named fields.",
  ["histories", "inputs"], "Random sequences of 5 to 40 operations over all documented software names; random field values in derived expressions.",
  "No test covers these modules.",
  ["aerokit/common/dicovar.py", "aerokit/common/extendvar.py"], [("database object", "aerokit/common/dicovar.py")], ["lookups, errors, expressions"],
  [("database", "current names", "aerokit/common/dicovar.py")])
p("I01", "Array evaluation equals scalar evaluation and never modifies its inputs",
  "For every function documented as available for arrays, evaluating an array returns, with the same shape, the scalar results of its elements, integers give the same results as equal floats, and broadcasting Mach number against gamma works where both are given; an element whose result is undefined does not change the other elements. No function modifies an array passed to it.",
  ["inputs"], "All public closed-form functions and array-capable inversions, arrays of 0 to 3000 elements and up to three dimensions, integers and double precision.",
  "Tests evaluate two or three functions on arrays.",
  [AERO+"Isentropic.py", AERO+"MassFlow.py", AERO+"ShockWave.py", AERO+"Supersonic.py", AERO+"Fanno.py", AERO+"Rayleigh.py", AERO+"Propulsion.py", AERO+"degree.py"], [("numpy expressions", AERO)], ["arguments and return values"])
p("I02", "Legacy names give the same results as the current ones",
  "Every legacy function, class or module name returns, for all arguments passed by position or keyword, exactly what the current function returns, including default values of omitted arguments.",
  ["inputs"], "All legacy names, Mach, ratios and angles over their domain, gamma given or omitted.",
  "Tests compare one value for some of the names.",
  [AERO+"CompressibleFlow.py", AERO+"nozzle.py", AERO+"riemann.py", AERO+"Isentropic.py", AERO+"ShockWave.py"], [("forwarding functions and aliases", AERO+"CompressibleFlow.py")], ["return values of both names"])
p("I03", "Plotted polars are curves of the flow relations they claim to show",
  "For every Mach number, gas and origin, the points drawn by the shock and isentropic polar plots lie on the corresponding wave relation, shifted by the given initial direction and pressure, cover the full range with the requested number of points, and only the requested sides are drawn. The marked points are the maximum deflection and sonic points.",
  ["inputs", "configurations"], "Mach in [1.05, 20], gamma in [1.1, 1.67], all curve selections, markers on or off, any origin.",
  "No test covers plotting.",
  [AERO+"plot/shockpolar.py", AERO+"plot/isentropicpolar.py", AERO+"plot/defaultstyle.py"], [("line data", AERO+"plot/shockpolar.py")], ["data of drawn lines"])
p("I04", "Computations are pure: results do not depend on call history",
  "Calling any public function or rebuilding any object with the same arguments gives identical results whatever was computed before, in any order, or is being computed at the same time in another thread. No computation leaves a trace in global numerical settings, warning filters, random state or default gas.",
  ["histories"], "Random interleavings of all public computations, replayed in a different order and in a fresh process.",
  "Tests run in one fixed order.",
  ["aerokit/aero", "aerokit/common", "aerokit/instance", "aerokit/engine", "aerokit/stability"], [("absence of module state", "aerokit/aero")], ["return values, global settings before and after"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
