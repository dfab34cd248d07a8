"""writes /verif/properties.jsonl"""
import json, os
W = "aerokit/"
ROWS = []


def p(id, title, st, over, q, why, files, mech, state=None):
    d = dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why,
             anchors=dict(files=[W + f for f in files], mechanism=[dict(name=n, where=W + w) for n, w in mech]))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m) for n, m in state]
    ROWS.append(d)


I = ["inputs"]
IC = ["inputs", "configurations"]
p("C01", "Isentropic stagnation ratios, their inverses and the flow velocity",
  "For every Mach number M>=0 and every gamma>1 the total-to-static temperature ratio is 1+(gamma-1)/2 M^2 and the pressure ratio is its gamma/(gamma-1) power, and the Mach numbers returned from either ratio are the exact inverses. The velocity from Mach and total temperature is M times the local speed of sound sqrt(gamma r Ts). Scalars, integers, numpy arrays of any shape, positional or keyword arguments and the legacy names give the same values, and arguments are not modified.",
  IC, "every M, ratio, Tt, r, gamma>1; every shape of array argument; every legacy name", "The tests evaluate a few Mach numbers, nearly always gamma=1.4; nothing quantifies over gamma or argument shapes.",
  ["aero/Isentropic.py"], [("stagnation ratios and inverses", "aero/Isentropic.py")])
p("C02", "Area ratio, mass-flow function and their subsonic/supersonic inverses",
  "For every M>0 and gamma>1 the section ratio A/A* and the reduced mass flow follow the isentropic relations, their product is constant, and A/A* has its minimum 1 at M=1 and is strictly monotone on each side. For 1<gamma<3 the subsonic (supersonic) inverse of any A/A*>=1 returns a Mach number on the subsonic (supersonic) branch whose section ratio is the requested one, for scalars and arrays. The inverse from a guess returns the root of the branch of each guess.",
  IC, "every M>0, A/A*>=1, gamma (1<gamma<3 for inverses), every array shape, every guess", "The tests check a few section ratios at gamma 1.4; convergence to the right branch for every (ratio, gamma) cannot be sampled.",
  ["aero/MassFlow.py"], [("section ratio, guess selection and newton inversion", "aero/MassFlow.py")])
p("C03", "Normal shock: Rankine-Hugoniot conservation and inversion",
  "For every upstream normal Mach number M>=1 and every gamma>1 the static pressure, density and temperature ratios and the downstream Mach number satisfy the exact mass, momentum and total-enthalpy balances across the shock, the downstream Mach number is at most 1, and applying the downstream relation twice gives back M. The Mach number computed from a pressure ratio >=1 is the exact inverse of the pressure ratio.",
  IC, "every M>=1, pressure ratio>=1, gamma>1, every array shape", "Unit tests check tabulated values at one or two Mach numbers and gamma 1.4, and a couple of round trips; conservation is never checked for a general gamma.",
  ["aero/ShockWave.py"], [("jump relations", "aero/ShockWave.py")])
p("C04", "Total pressure loss across a normal shock, for any gamma",
  "For every M>=1 and gamma>1 the total pressure ratio across the shock is the product of the static ratio and of the isentropic ratios taken at the same gamma on both sides; it equals 1 at M=1 and decreases with M, so it never exceeds 1. The Mach number computed from a total pressure ratio below 1 reproduces this ratio within the solver tolerance, and ratios above 1 are refused by returning 1.",
  IC, "every M>=1, gamma>1, ratio", "The tests use a few values with gamma 1.4.",
  ["aero/ShockWave.py"], [("total pressure ratio and inverse", "aero/ShockWave.py")])
p("C05", "Oblique shock: deflection, pressure-ratio form and downstream Mach number",
  "For every M>1 and every shock angle between the Mach angle and 90 degrees the deflection satisfies tan(sigma-deflection)=tan(sigma)/density ratio of the normal Mach number M sin(sigma), lies in [0, 90[ degrees (below 90 degrees of shock angle) and vanishes for the Mach wave. Deflection and downstream Mach number given by a shock pressure ratio agree with those of the corresponding shock angle and conserve total enthalpy and tangential velocity.",
  IC, "every M>1, every admissible shock angle and pressure ratio, every gamma>1", "The tests evaluate a handful of angles; the balance in two components is never checked.",
  ["aero/ShockWave.py"], [("deflection and pressure-ratio forms", "aero/ShockWave.py")])
p("C06", "Shock angle from deflection: weak/strong roots, maximum and sonic deflection",
  "For every M>1, gamma>1 and attached deflection the weak and strong shock angles both reproduce the requested deflection, with Mach angle <= weak <= strong <= 90 degrees; the detached answer (Mach angle or 90 degrees) is given exactly when no oblique shock exists. The angle of maximum deflection is where the deflection is stationary and maximal, the sonic angle gives a downstream Mach number of exactly 1, and a negative deflection gives the opposite shock angle with the iterative solver.",
  IC, "every M>1, gamma>1, deflection in the attached or detached range", "The tests sample a few (M, deflection) pairs at gamma 1.4, no branch boundary is reached.",
  ["aero/ShockWave.py", "aero/IterativeSolve.py"], [("closed-form cubic roots, secant solver, extremal angles", "aero/ShockWave.py")])
p("C07", "Conical shock: Taylor-Maccoll integration from the shock to the cone wall",
  "The conical flow solution starts from the oblique-shock state immediately behind the shock, integrates the Taylor-Maccoll equations in the flow angle and Mach number for the given gamma with only steps whose error estimate is within tolerance, and stops where the flow angle equals the ray angle within the requested tolerance, returning the mean of both angles. The inverse functions return the shock angle or the Mach number whose cone angle is the requested one.",
  I, "every M>1, shock angle with attached shock, gamma>1, tolerance", "Tests compare a few cone angles at gamma 1.4 to tables with loose tolerances.",
  ["aero/ShockWave.py", "common/_ode.py"], [("Taylor-Maccoll right-hand side and marching loop", "aero/ShockWave.py")])
p("C08", "Prandtl-Meyer expansion function and isentropic turning",
  "For every M>=1 and gamma>1 the Prandtl-Meyer angle is the integral of sqrt(M^2-1)/(1+(gamma-1)/2 M^2) dM/M from M=1 (zero at M=1, strictly increasing), and the Mach number computed from an angle has that angle. The pressure ratio of an isentropic wave of a given deflection is above 1 for a positive deflection and below 1 for a negative one, and the angle computed from a pressure ratio is the opposite of the deflection that gives this ratio; Mach numbers from the angle minus Mach-angle relation satisfy that relation.",
  IC, "every M>=1, gamma>1, angle below the maximum, pressure ratio, every array shape", "The tests check a few tabulated angles for gamma=1.4.",
  ["aero/Supersonic.py"], [("closed form, newton inversion and turning", "aero/Supersonic.py")])
p("C09", "Fanno flow: adiabatic friction duct relations",
  "For every M>0 and gamma>1 the ratios of pressure, temperature, density, velocity and total pressure to the sonic state are those of a constant-area adiabatic flow (equal mass flow, equal total temperature, perfect gas law, all equal to 1 at M=1). The friction parameter is zero at M=1, positive elsewhere and satisfies the Fanno differential relation, and the normalized entropy is consistent with the total pressure ratio and maximal at M=1.",
  IC, "every M>0, gamma>1, every array shape", "Tests check a few values for gamma=1.4.",
  ["aero/Fanno.py"], [("ratios to the critical state", "aero/Fanno.py")])
p("C10", "Rayleigh flow: heat addition duct relations and inverses",
  "For every M>0 and gamma>1 the ratios of pressure, temperature, density, velocity, total pressure and total temperature to the sonic state are those of a constant-area frictionless flow (equal mass flow, equal momentum flux, perfect gas law, all equal to 1 at M=1); total temperature is maximal at M=1 and the normalized entropy is consistent. The subsonic and supersonic inverses return the Mach number of the requested branch for each total temperature ratio in their range, and the maximum heating ratio is the reciprocal of the total temperature ratio.",
  IC, "every M>0, gamma>1, every array shape, every ratio of the range of each branch", "Tests check a few values for gamma=1.4 only.",
  ["aero/Rayleigh.py"], [("ratios to the critical state and inverses", "aero/Rayleigh.py")])
p("C11", "One-dimensional gas state: derived quantities, constructors and gamma",
  "For every state with positive density and pressure the sound speed, Mach number, characteristic speeds, mass flow and total pressure/temperature/enthalpy are those of the perfect gas with the gamma of that state. States rebuilt from totals with velocity, Mach number or pressure, isentropic transformations and Rankine-Hugoniot jumps conserve the specified quantities, and every derived or copied or indexed state keeps the gamma of its source and does not modify it.",
  IC, "every rho>0, p>0, u, gamma>1, scalar or array states, any chain of constructors", "Tests check some round trips with default gamma.",
  ["aero/model1D.py"], [("state class", "aero/model1D.py")])
p("C12", "Unsteady wave curves: shocks, isentropic waves and expansion functions",
  "For every state and every target pressure on the admissible side, the velocity change and density through a shock satisfy the unsteady Rankine-Hugoniot relations and those through an isentropic wave satisfy the Riemann invariant and isentropic law, with both curves meeting with the same slope at the initial pressure. Every relation uses the gamma of its own state, whose fields are not modified by evaluating them.",
  IC, "every positive-density, positive-pressure state, target pressure, gamma>1", "Tests check few states at gamma 1.4.",
  ["aero/unsteady1D.py", "aero/model1D.py"], [("wave relations", "aero/unsteady1D.py")])
p("C13", "Riemann problem: star state, wave speeds and sampled solution",
  "For any two states without vacuum, possibly with different gamma, pressure and velocity are equal on both sides of the contact, each star state is connected to its side by the exact shock (if compressed) or isentropic (if expanded) relations, and shock and expansion wave speeds satisfy the jump and characteristic relations. The sampled solution at any x/t is the left state, the star states, the right state, or inside a fan the state with the characteristic speed x/t and the invariant and entropy of its side, with the gamma of its side of the contact.",
  IC, "all left/right states and gammas, every x/t sample array", "Tests check Sod-like cases with gamma=1.4 and a few samples.",
  ["instance/riemann.py", "aero/unsteady1D.py"], [("star pressure solve, waves, sampling", "instance/riemann.py")])
p("C14", "Unsteady inflow boundary problem: consistent star states",
  "For given total pressure and temperature upstream and an initial subsonic state, the solved inflow state conserves the imposed totals, has the pressure and velocity of the state downstream of the contact, and this one is connected to the initial state by the exact shock or isentropic wave. Wave speeds follow from these states.",
  IC, "all inflow conditions and initial states for which the solver is defined", "No test exists for this module.",
  ["instance/unsteady_inflow.py"], [("newton solve of the contact pressure", "instance/unsteady_inflow.py")])
p("C15", "Nozzle regimes, exit Mach number and profiles, for any gamma",
  "The three pressure-ratio limits of a nozzle are those of sonic throat with subsonic exit, shock at the exit and adapted supersonic exit for the gamma of the call; the exit Mach number in each regime conserves mass flow and total enthalpy, and the profile of Mach, static and total pressure satisfies the isentropic relations in each section with the same mass flow, subsonic before the throat, with total pressure loss equal to the normal shock one. The gamma given to a nozzle is used in every relation.",
  IC, "every section law with a throat, area ratio, NPR, gamma", "Tests check a few NPR values with gamma 1.4.",
  ["instance/nozzle.py"], [("limits, exit Mach number and profiles", "instance/nozzle.py")])
p("C16", "Default gas: settings, save and restore over any history",
  "Whatever the sequence of calls, the default gamma and gas constant read are the last ones set or restored, restoring gives back both values at the last save, setting one never changes the other nor the saved values. Computing flow functions or building nozzles, states and Riemann problems never changes the default gas nor the saved one.",
  ["histories"], "every sequence of set/save/restore/compute operations", "Tests run one sequence.",
  ["common/defaultgas.py", "instance/nozzle.py"], [("module state", "common/defaultgas.py")], [("default gas", "current and saved gamma and r")])
p("C17", "Trigonometry in degrees",
  "The degree versions of the direct and inverse trigonometric functions equal the radian functions composed with the exact conversion, on the whole range and in the right quadrant for the two-argument arctangent, and the inverses return angles in degrees in the principal range. Scalars and arrays are handled identically.",
  I, "every real angle, every argument of the inverse functions, every array shape", "Tests check a few angles.",
  ["aero/degree.py"], [("degree functions", "aero/degree.py")])
p("C18", "Secant root solver: exactness, exit criterion and bounded work",
  "For every function and target the secant solver stops only when the last correction is within max(tol, tol|x|) or after a fixed maximum number of iterations, in which case a warning is printed; each returned value is the secant update from the last two points and the number of function evaluations is bounded. For an affine function the exact solution is returned, arrays are solved element by element.",
  I, "every function, target, initial guess and tolerance, any number of iterations up to the maximum", "Tests only use the solver through a few physical functions.",
  ["aero/IterativeSolve.py"], [("secant iteration", "aero/IterativeSolve.py")])
p("C19", "ODE integrators: order conditions, step acceptance and end point",
  "One step of the fixed-step integrator is the classical fourth-order Runge-Kutta update and one step of the embedded pair satisfies the order conditions of orders 5 and 4 with the difference as error estimate, for every right-hand side. Marching starts at the initial point, ends exactly at the requested abscissa, never passes it, and the adaptive integrator appends only steps whose error estimate is within the tolerance.",
  ["inputs", "histories"], "every right-hand side, initial data, step, tolerance, any number of steps", "No test exists for the integrators themselves.",
  ["common/_ode.py"], [("RK4 and RKF45 marching", "common/_ode.py")])
p("C20", "Chebyshev collocation: nodes, differentiation matrices and interpolation",
  "For every number of points and interval the collocation points are the Chebyshev extrema mapped on the interval with both ends included, mapping to and from the reference interval are inverse, and the differentiation matrices of any order annihilate constants and are exact for polynomials up to the degree of the grid, with the scaling of the interval. Requesting orders in any sequence gives the same matrices, interpolation reproduces the data at nodes.",
  ["inputs", "histories"], "number of points, interval, order, request order", "Tests check one or two sizes and functions.",
  ["common/numspectral.py"], [("collocation operators", "common/numspectral.py")])
p("C21", "Linearized Euler stability operator and boundary conditions",
  "For every base flow, grid and gamma, away from boundary rows the operator applied to a perturbation is the linearized Euler system of the base flow. Boundary rows impose exactly the requested conditions on the requested side and leave every other row and the user's boundary settings untouched.",
  IC, "every base flow, number of points, gamma, boundary condition choice", "Tests check eigenvalues of a few configurations.",
  ["stability/Euler.py"], [("operators and boundary rows", "stability/Euler.py")])
p("C22", "Orr-Sommerfeld operator and boundary conditions",
  "For every base velocity profile, Reynolds number and wave number, interior rows of the temporal operator are those of the Orr-Sommerfeld equation. Boundary rows impose zero value and zero derivative of the perturbation at both walls.",
  IC, "every base profile, Reynolds number, wave number, number of points", "Tests check few eigenvalues.",
  ["stability/OrrSommerfeld.py"], [("operator assembly", "stability/OrrSommerfeld.py")])
p("C23", "Stability models: eigenvalue selection, ordering and fresh operators",
  "Selection keeps exactly the eigenvalues in the requested real and imaginary bounds with their own eigenvectors, and the order returned sorts them by increasing real part or decreasing imaginary part. Setting a new base state (with its parameters) or new boundary conditions always leads to operators of the new settings at the next solve.",
  ["inputs", "histories"], "every eigenvalue set and bounds; every sequence of setters and solves", "Tests run one solve per object.",
  ["stability/_base.py", "stability/Euler.py", "stability/OrrSommerfeld.py"], [("selection and operator cache", "stability/_base.py")])
p("C24", "Engine cycles: energy balance and efficiencies",
  "For every flight condition, gas and component efficiencies, each engine cycle conserves energy across inlet, compressor, combustor, turbine, fan and nozzles, with the specified pressure losses and polytropic efficiencies, and specific thrust, consumption and efficiencies follow from these stations. Compressor and fan work equal turbine work with the shaft efficiency, and the class, function and double-spool versions of the same cycle give the same results.",
  IC, "every flight condition, pressure ratio, temperature, bypass ratio, efficiencies", "No test exists for the engine modules.",
  ["engine/gasgenerator.py", "engine/turbojet.py", "engine/turbofan.py", "engine/propu_be.py", "engine/propu_be_double_corps.py", "engine/Cycle_Turbofan.py"], [("cycle stations", "engine/gasgenerator.py")])
p("C25", "Legacy interfaces give the same results as the current ones",
  "Every legacy module and every legacy function name returns for all arguments the result of the current function it stands for, with the same argument order and default gas of 1.4 and 287.1.",
  IC, "every legacy name, all arguments and shapes", "Tests check two or three names at one value.",
  ["aero/CompressibleFlow.py", "aero/Isentropic.py", "aero/ShockWave.py", "aero/nozzle.py", "aero/riemann.py"], [("legacy wrappers", "aero/CompressibleFlow.py")])
p("C26", "Variable naming database over any history",
  "After any sequence of selections, additions and changes, each way to read a variable name returns the last name set for it in the current database, unknown names or invalid additions or changes raise an error and leave the database unchanged. Selecting a software starts from its pristine names, never altered by former changes, selecting an unknown software raises an error and keeps the current one, and the expressions of derived variables are the gas relations written with the current names.",
  ["histories"], "every sequence of operations on the database", "No test exists for this module.",
  ["common/dicovar.py", "common/extendvar.py"], [("naming database", "common/dicovar.py")], [("current database", "names of the selected software")])
p("C27", "Thermodynamic property polynomials are mutually consistent",
  "For every temperature of use the specific heat is the derivative of the enthalpy and the entropy function has derivative Cp/(r T ln 10), within the rounding of the printed coefficients. The ratio gamma is Cp/(Cp-r) of the same gas, and the effective heating value is the reference value corrected by the enthalpy difference.",
  I, "every temperature T>0", "No test exists for these modules.",
  ["aero/ThermoRealGas.py", "aero/ThermoKerosen.py"], [("property fits", "aero/ThermoRealGas.py")])
p("C28", "Thrust function of a gas stream and its inverse",
  "For every M>0 and gamma>1 the dimensionless thrust function is section ratio times static-to-total pressure ratio times (1+gamma M^2), which is stationary at M=1. The inverse returns a Mach number whose thrust function is the requested one within the solver tolerance.",
  IC, "every M>0 and gamma>1", "No test exists for this module.",
  ["aero/Propulsion.py"], [("thrust function", "aero/Propulsion.py")])
if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
        for r in ROWS:
            f.write(json.dumps(r) + "\n")
