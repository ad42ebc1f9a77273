"""Single source of properties.jsonl and MANIFEST.json: python3 tools/meta.py writes both."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K = "geoana/kernels/"
FD, TD, ST = "geoana/em/fdem/", "geoana/em/tdem/", "geoana/em/static/"

# id: title, statement, over, quantifier text, why tests cannot, files, mechanism, observe, technique, level note
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, observe=observe, technique=technique, note=note))


ORACLE = "Exploration: holds on every generated execution; trusts the independently written reference ({}) and its stated error bound."

prop("C01", "Compiled kernels are memory safe and well defined for any accepted input",
     "Whatever arrays are passed to the compiled prism and reflection-coefficient kernels (any layout, size down to empty, mismatched shapes or dtypes, non-finite, zero, denormal or huge values), each call either returns or raises a Python exception. It never reads or writes outside the arrays it was given or allocated, never uses memory after it is freed, never executes undefined behaviour, never crashes the interpreter, and never writes to its inputs.",
     ["inputs", "histories"], "all argument tuples and all sequences of kernel calls in one process",
     "The tests call the kernels with a handful of well-formed contiguous arrays on an uninstrumented build, where an overrun goes unnoticed.",
     [K + "_extensions/_rTE.cpp", K + "_extensions/_rTE.h", K + "_extensions/rTE.pyx", K + "_extensions/potential_field_prism.pyx"],
     [("memoryview acquisition and shape checks", K + "_extensions/rTE.pyx"), ("per-wavenumber recursion over layer buffers", K + "_extensions/_rTE.cpp")],
     ["sanitizer reports, process signals, returned arrays, guard pages around arrays"],
     "AddressSanitizer + UBSan instrumented builds under hostile call histories, canary monitors",
     "Exploration under ASan/UBSan (gcc) plus canary-surrounded arrays; accesses that stay inside one allocation are only seen by value checks.")

prop("C02", "Compiled, pure-NumPy and Numba kernels give the same results",
     "The prism and reflection-coefficient kernels return the same values, shapes and dtypes whichever implementation is in use (compiled extension, NumPy fallback, or Numba-jitted fallback where installed), for every valid argument including non-contiguous, read-only, scalar-parameter and zero-layer models, so that results do not depend on whether the extension could be built.",
     ["inputs", "configurations"], "all valid arguments of every kernel, over the implementations that can be selected at import",
     "The tests compare the implementations on one or two models; agreement must hold for every layer count, frequency count, parameter shape and layout.",
     [K + "__init__.py", K + "potential_field_prism.py", K + "tranverse_electric_reflections.py", K + "_extensions/rTE.pyx", K + "_extensions/potential_field_prism.pyx", K + "_extensions/_rTE.cpp"],
     [("import-time choice of implementation", K + "__init__.py"), ("two independent implementations of each kernel", K)],
     ["return values of geoana.kernels functions in each configuration"],
     "differential runtime monitor over implementations loaded side by side from the current tree",
     "Exploration: bitwise-close agreement on all generated calls; a defect common to all implementations is left to C03-C05.")

prop("C03", "TE reflection coefficients equal the layered-earth recursion",
     "For every set of frequencies, wavenumbers, layer conductivities (complex allowed), permeabilities and thicknesses, the forward transverse-electric reflection coefficient equals the exact plane-layer recursion for the model to rounding, for any number of layers and whether or not properties vary with frequency. It never overflows to nan for thick or conductive layers, and depends only on its own frequency and wavenumber.",
     ["inputs"], "all layered models, frequencies and wavenumbers",
     "Tests evaluate a few models and compare implementations with each other, not with an independent solution over the parameter space.",
     [K + "tranverse_electric_reflections.py", K + "_extensions/_rTE.cpp", K + "_extensions/rTE.pyx"],
     [("rTE_forward recursion", K + "tranverse_electric_reflections.py"), ("funcs::rTE", K + "_extensions/_rTE.cpp")],
     ["return value of rTE_forward"],
     "value monitor against an independent extended-precision impedance recursion",
     ORACLE.format("80-bit impedance form of the recursion"))

prop("C04", "TE reflection gradients are the derivatives of the reflection coefficient",
     "The sensitivities returned for conductivity, permeability and thickness of every layer are the exact partial derivatives of the forward reflection coefficient with respect to those parameters, at every frequency and wavenumber, for any number of layers, with the documented array layout.",
     ["inputs"], "all layered models, frequencies, wavenumbers, layers and parameters",
     "The tests run a few Taylor tests along random directions on fixed models, which a sign or index error in rarely dominant terms survives.",
     [K + "tranverse_electric_reflections.py", K + "_extensions/_rTE.cpp", K + "_extensions/rTE.pyx"],
     [("rTE_gradient adjoint sweep", K + "tranverse_electric_reflections.py"), ("funcs::rTEgrad", K + "_extensions/_rTE.cpp")],
     ["return value of rTE_gradient"],
     "value monitor against dual-number / high precision differentiation of an independent recursion",
     ORACLE.format("extended-precision complex-step differentiation of the impedance recursion"))

prop("C05", "Prism kernels equal the exact corner integrals and their limits",
     "Each prism kernel equals its analytic corner function at every offset, including offsets with zero components and offsets next to coordinate planes or edges: finite wherever the potential-field limit is finite, with the symmetries of the function, and such that the eight-corner sums are the exact integrals over the prism.",
     ["inputs"], "all corner offsets (x, y, z)",
     "The tests compare kernels with each other and at a few points; accuracy near planes and edges is not sampled.",
     [K + "potential_field_prism.py", K + "_extensions/potential_field_prism.pyx"],
     [("prism_f* functions with zero guards", K + "potential_field_prism.py")],
     ["return values of geoana.kernels.prism_*"],
     "value monitor against extended-precision corner functions with tracked error bounds",
     ORACLE.format("80-bit corner functions and quadrature"))

prop("C06", "Gravity of a point mass and a sphere is the exact Newtonian solution",
     "At every location the potential, field and gradient of a point mass are those of Newtonian gravity in the documented sign convention, and those of a homogeneous sphere are the exact interior and exterior solutions, continuous across the surface, with mass and density always consistent with the radius.",
     ["inputs", "histories"], "all masses, radii, densities, positions and observation points, after any order of assignments",
     "Tests evaluate a fixed grid, with formulas copied from the code.",
     ["geoana/gravity.py"], [("PointMass and Sphere field methods", "geoana/gravity.py"), ("mass/radius/rho coupling", "geoana/gravity.py")],
     ["return values of the public methods"],
     "value monitor against independent closed forms in 80-bit arithmetic", ORACLE.format("closed forms, divergence and continuity conditions"))

prop("C07", "Gravity of a prism is the exact Newtonian volume integral",
     "For every prism, density and observation point (inside, outside, on the faces' planes and edges' extensions) the gravitational potential, field and gradient are the exact integrals over the prism: harmonic outside, satisfying Poisson's equation inside, symmetric gradient, and additive when the prism is split.",
     ["inputs"], "all prisms, densities and observation points",
     "Tests use one prism and a fixed grid away from faces.",
     ["geoana/gravity.py", "geoana/shapes.py", K + "potential_field_prism.py", K + "_extensions/potential_field_prism.pyx"],
     [("Prism field methods via corner evaluation", "geoana/gravity.py"), ("BasePrism._eval_def_int", "geoana/shapes.py")],
     ["return values of the public methods"],
     "value monitor against extended-precision integrals + conservation (Poisson, additivity) monitors", ORACLE.format("80-bit corner integrals and volume quadrature"))

prop("C08", "Magnetic field of a uniformly magnetised prism is exact",
     "For every prism, magnetisation vector and observation point the scalar potential, field, flux density and field gradient are those of a uniformly magnetised prism: the flux density is mu_0 (H + M) inside and mu_0 H outside, the gradient tensor is symmetric with the trace required by Maxwell's equations, and the total moment is volume times magnetisation.",
     ["inputs"], "all prisms, magnetisations and observation points",
     "Tests use one prism and a fixed grid away from faces.",
     [ST + "freespace.py", "geoana/shapes.py", K + "potential_field_prism.py"],
     [("MagneticPrism methods", ST + "freespace.py")], ["return values of the public methods"],
     "value monitor against extended-precision integrals + Maxwell invariants", ORACLE.format("80-bit corner integrals"))

prop("C09", "Static dipole, pole and circular loop fields are exact everywhere",
     "For every location, orientation, moment (or current and radius), permeability and observation point off the source, the magnetostatic dipole, pole and circular-loop vector potentials, flux densities and fields equal the exact solutions, with B = mu H, in Cartesian and in cylindrical coordinates alike, including on and close to the axis of the loop.",
     ["inputs"], "all sources, observation points and both coordinate systems",
     "Tests use a few sources on one grid and skip near-axis and near-wire points.",
     [ST + "wholespace.py", "geoana/em/base.py", "geoana/spatial.py"],
     [("dipole/pole/loop methods", ST + "wholespace.py")], ["return values of the public methods"],
     "value monitor against independent 80-bit references (closed form, trapezoid/AGM loop integrals)", ORACLE.format("80-bit closed forms and loop integrals"))

prop("C10", "Line and point currents in a whole space are exact and additive",
     "For every polyline, current, conductivity and observation point off the wire, the scalar potential, vector potential, magnetic field, flux density, electric field and current density are the exact sums over straight segments plus electrode terms: independent of how the wire is subdivided, with no electrode terms for a closed wire, and sign-reversing with the direction of travel; a point current is the corresponding single electrode.",
     ["inputs"], "all polylines, currents, media and observation points",
     "Tests use a few wires; subdivision, collinear points, repeated nodes and closed loops are not explored.",
     [ST + "wholespace.py", "geoana/em/base.py", K + "potential_field_prism.py"],
     [("LineCurrentWholeSpace / PointCurrentWholeSpace", ST + "wholespace.py")], ["return values of the public methods"],
     "value monitor against 80-bit segment integrals + subdivision/reversal monitors", ORACLE.format("80-bit segment integrals"))

prop("C11", "DC half-space point and dipole currents satisfy Ohm's law and the image solution",
     "For every resistivity, current, electrode position on or below the surface and observation point, potentials and fields of a pole or dipole in a half-space are the exact image solution: no current through the surface, E = rho J, dipole = pole A minus pole B, and differences between measuring electrodes are the difference of the two values.",
     ["inputs"], "all half-space sources and receiver positions",
     "Tests repeat the code's formula for one source.",
     [ST + "halfspace.py"], [("PointCurrentHalfSpace / DipoleHalfSpace", ST + "halfspace.py")], ["return values of the public methods"],
     "value monitor against 80-bit image solution + boundary-condition monitors", ORACLE.format("80-bit image solution"))

prop("C12", "Spheres in a uniform field satisfy the exact boundary-value problem",
     "For every radius, contrast, position and direction of the primary field, the conductive (electrostatic) and permeable (magnetostatic) sphere solutions are exact inside and outside: potential and tangential field continuous, normal flux continuous across the surface, total = primary + secondary for every quantity, constitutive laws hold, and the surface charge is the jump of the normal field.",
     ["inputs"], "all spheres, contrasts, primary fields, observation points and field selections",
     "Tests repeat the code's formulas on one sphere with field along x.",
     [ST + "sphere.py"], [("ElectrostaticSphere / MagnetostaticSphere", ST + "sphere.py")], ["return values of the public methods"],
     "value monitor against 80-bit exact solution + interface-condition monitors", ORACLE.format("80-bit exact solution"))

prop("C13", "Harmonic dipoles in a whole space satisfy Maxwell's equations",
     "For every frequency (single or list, zero included), medium, orientation, position and observation point, in the quasi-static and the full regime, the vector potential, E, J, H and B of harmonic electric and magnetic dipoles are the exact whole-space solutions with time dependence exp(+i omega t), with J = sigma E and B = mu H, one result per frequency.",
     ["inputs", "configurations"], "all frequencies, media, dipoles, observation points and both regimes",
     "Tests copy the formulas and use a few parameters; regimes, media and direction combinations are not explored.",
     [FD + "wholespace.py", FD + "base.py", "geoana/em/base.py"],
     [("ElectricDipoleWholeSpace / MagneticDipoleWholeSpace", FD + "wholespace.py")], ["return values of the public methods"],
     "value monitor against 80-bit exact solutions", ORACLE.format("80-bit closed forms, cross-checked by finite-difference Maxwell residuals"))

prop("C14", "Plane waves satisfy Maxwell's equations in both domains",
     "For every frequency or time, medium, amplitude, horizontal polarisation and observation point, harmonic and transient plane waves have the exact E, J, H and B of a wave travelling vertically downward, decaying with depth, with E, H and the direction of travel mutually orthogonal, J = sigma E and B = mu H.",
     ["inputs"], "all frequencies, times, media, polarisations and observation points",
     "Tests use one wave with formulas copied from the code.",
     [FD + "wholespace.py", TD + "wholespace.py"], [("HarmonicPlaneWave / TransientPlaneWave", FD + "wholespace.py")], ["return values of the public methods"],
     "value monitor against 80-bit exact solutions + orthogonality monitors", ORACLE.format("80-bit closed forms"))

prop("C15", "Harmonic magnetic dipole on a half-space gives the exact field",
     "For every frequency, conductivity, moment, orientation and surface receiver, the secondary and total magnetic field of a magnetic dipole on a conductive half-space equal the exact half-space solution, finite from the low-induction to the high-induction limit, with total = primary + secondary and one result per frequency.",
     ["inputs"], "all frequencies, conductivities, orientations, receivers, induction numbers",
     "Tests compare a few points with the layered code at moderate induction numbers.",
     [FD + "halfspace.py"], [("MagneticDipoleHalfSpace.magnetic_field", FD + "halfspace.py")], ["return values of magnetic_field"],
     "value monitor against independent Hankel-integral and high-precision references", ORACLE.format("mpmath evaluation of the half-space solution, cross-checked with direct Sommerfeld quadrature"))

prop("C16", "Harmonic magnetic dipole over a layered earth gives the exact field",
     "For every layered model (any number of layers, frequency-dependent properties allowed), frequency list, dipole orientation and height and horizontally offset receivers on or above the surface, the secondary field equals the Sommerfeld integral of the plane-layer reflection coefficient, total adds the free-space dipole field, and the answer does not change when a layer is split into layers of the same material.",
     ["inputs"], "all layered models, frequencies, sources and receivers",
     "Tests compare with a half-space and a few stored models.",
     [FD + "layered.py", K + "tranverse_electric_reflections.py"], [("MagneticDipoleLayeredHalfSpace.magnetic_field", FD + "layered.py")], ["return values of magnetic_field and the derived properties"],
     "value monitor against independent Sommerfeld quadrature + layer-splitting monitor", ORACLE.format("Gauss-Legendre + Wynn-epsilon Sommerfeld integrals; tolerance is the digital filter's accuracy"))

prop("C17", "Scalar EM functions and central-loop formulas are exact",
     "Angular frequency, wavenumber, complex conductivity, skin depth, diffusion distance, peak time, the diffusion parameter and the vertical field at the centre of a horizontal loop (frequency and time domain, field, flux and time derivatives, turn count, on-time and off-time) equal their defining formulas for every argument, broadcasting over arrays, and the methods on objects agree with the functions.",
     ["inputs"], "all arguments, scalars and broadcastable arrays",
     "Tests check a few values of some of the functions.",
     [FD + "base.py", FD + "simple_functions.py", TD + "base.py", TD + "simple_functions.py"],
     [("module-level functions", FD + "base.py")], ["return values of the public functions"],
     "value monitor against 80-bit / mpmath references", ORACLE.format("80-bit and mpmath closed forms"))

prop("C18", "Transient electric dipole in a whole space satisfies Maxwell's equations",
     "For every time, conductivity, permeability, orientation, position and observation point, the vector potential, E, J, H, B and the time derivatives of the transient electric dipole equal the exact step-off whole-space solution, the reported time derivatives are the derivatives of the reported fields, J = sigma E, B = mu H, and one result is given per time.",
     ["inputs"], "all times, media, dipoles and observation points",
     "Tests copy the formulas for one medium.",
     [TD + "wholespace.py", TD + "base.py"], [("ElectricDipoleWholeSpace", TD + "wholespace.py")], ["return values of the public methods"],
     "value monitor against high-precision references + derivative monitors", ORACLE.format("mpmath closed forms"))

prop("C19", "Transient vertical magnetic dipole on a half-space is exact",
     "For every time, conductivity, permeability, moment and surface receiver, the transient magnetic field, flux density and their time derivatives of a vertical magnetic dipole on a half-space equal the exact solution, from early to late time, consistently between the class, the plain functions and the textbook reference formulas, with the time derivative being the derivative of the field.",
     ["inputs"], "all times, media, moments and receivers",
     "Tests compare the class with the reference formulas at a few points.",
     [TD + "halfspace.py", TD + "simple_functions.py", TD + "reference.py"], [("magnetic_field_vertical_magnetic_dipole and friends", TD + "simple_functions.py")], ["return values of the public functions"],
     "value monitor against mpmath references + derivative monitors", ORACLE.format("mpmath closed forms"))

prop("C20", "Coordinate transforms are exact, mutually inverse and preserve vectors",
     "Cartesian, cylindrical and spherical transforms of points and of vector fields are the exact ones for every point including the axis and the origin: each pair is mutually inverse, vector transforms are rotations (they preserve length and dot products) and send each local basis vector to its definition, and the deprecated aliases behave alike.",
     ["inputs"], "all points, vectors and array shapes",
     "Tests round-trip a few random arrays, which misses errors common to both directions.",
     ["geoana/spatial.py"], [("coordinate transform functions", "geoana/spatial.py")], ["return values of the public functions"],
     "value monitor against 80-bit transforms + inverse/isometry monitors", ORACLE.format("80-bit transforms"))

prop("C21", "Rotations between normals are proper and carry one normal to the other",
     "For every pair of non-zero vectors, including parallel, anti-parallel and nearly so, the rotation taking one direction to the other is orthogonal with determinant one, maps the first normal onto the second by the shortest rotation, the matrix and rotation-object forms agree, and rotating points about any origin applies exactly that rotation.",
     ["inputs"], "all pairs of normals, origins and point sets",
     "Tests use random pairs, which never come near parallel or anti-parallel.",
     ["geoana/spatial.py"], [("rotation_matrix_from_normals, rotate_points_from_normals", "geoana/spatial.py")], ["returned matrices and points"],
     "invariant monitors (orthogonality, determinant, image of the normal, angle)", ORACLE.format("algebraic invariants"))

prop("C22", "Grid and vector utilities obey their definitions for every shape",
     "Vectorising, building tensor grids, checking and broadcasting location arrays, appending dimensions, magnitudes, distances, dot products and scalar repetition obey their documented definition (ordering, shape, values) for every input shape, type and memory layout; the same helpers on dipole sources (distance to the source, products with its orientation) agree with them; and optional-dependency guards never block functions whose dependencies are present.",
     ["inputs"], "all shapes, dtypes and layouts",
     "Tests use one or two shapes per function.",
     ["geoana/utils.py", "geoana/spatial.py"], [("mkvc, ndgrid, check_xyz_dim, append_ndim, requires", "geoana/utils.py")], ["return values of the public functions"],
     "value monitor against loop-based definitions", ORACLE.format("element-by-element definitions"))

prop("C23", "Calls never modify the caller's data or keep hidden references to it",
     "No constructor, setter, method or function modifies an array, list or dictionary the caller passed in, and later changes the caller makes to that data never change the object; evaluating fields never changes the object's parameters, and changing a returned result never changes later results.",
     ["histories", "inputs"], "all calls of the public interface and all later modifications by the caller",
     "Tests do not look at arguments after a call.",
     ["geoana/em/base.py", "geoana/gravity.py", "geoana/shapes.py", ST + "sphere.py", FD + "layered.py", "geoana/plotting_utils.py"],
     [("private copies in setters", "geoana/em/base.py")], ["argument snapshots before/after calls, object state, repeated results"],
     "alias/mutation monitor: byte snapshots of arguments and state around every public call", "Exploration over a registry of the public interface found by introspection.")

prop("C24", "Every location is evaluated independently of the array it comes in",
     "The value returned for an observation point does not depend on which other points are in the same call, on their order or number, on the shape, memory layout, numeric type or container of the array, nor on the other frequencies or times evaluated together, and the result's shape follows the documented rule for the shape of the input.",
     ["inputs", "configurations"], "all public field methods, all point sets, partitions, permutations and layouts",
     "Tests evaluate one grid shape per method.",
     ["geoana/utils.py", "geoana/em/base.py", "geoana/shapes.py", "geoana/gravity.py", "geoana/em"],
     [("check_xyz_dim and broadcasting in every method", "geoana/utils.py")], ["results of batched and single calls"],
     "metamorphic monitor: batched vs pointwise evaluations over layouts", "Exploration over a registry of the public interface.")

prop("C25", "Results depend only on current parameters, not on how they were reached",
     "After any sequence of assignments, evaluations and rejected assignments, an object gives exactly the results of a freshly built object with the same parameters, and reading a parameter returns the value last assigned; coupled parameters (conductivity and resistivity, mass and density, current and nodes, and the like) stay consistent.",
     ["histories"], "all sequences of assignments and evaluations on every public class",
     "Tests build objects once and rarely reassign.",
     ["geoana/em/base.py", "geoana/gravity.py", "geoana/shapes.py", FD + "layered.py", ST + "sphere.py"],
     [("property setters, no cached state", "geoana/em/base.py")], ["results of mutated vs fresh objects"],
     "history monitor: random setter/evaluate sequences vs fresh-object oracle", "Exploration of random histories over a registry of the public classes.")

prop("C26", "Invalid parameters are rejected and leave the object as it was",
     "Assigning or constructing with a value outside the documented domain (wrong type, wrong shape, wrong sign, unknown option) raises TypeError or ValueError at once and leaves every parameter and result of the object unchanged, while every value inside the domain is accepted, in each accepted form (number, list, tuple, array); relations between parameters (corners of a prism in order, source on or above the surface) are enforced on construction, a fault's angles, depths, slip and length keep to their ranges, and methods refuse unknown coordinate systems and points outside the medium they are defined in.",
     ["inputs", "histories"], "all parameters of all public classes, valid and invalid values",
     "Tests try one or two bad values per setter and never look at the object afterwards.",
     ["geoana/em/base.py", "geoana/gravity.py", "geoana/shapes.py", "geoana/earthquake/oksar.py", FD, TD, ST],
     [("validation in property setters", "geoana/em/base.py")], ["exceptions and object state around assignments"],
     "acceptance/rejection monitor with state snapshots", "Exploration over a table of documented parameter domains.")

prop("C27", "Fields are linear in the source and move rigidly with it",
     "Every source's fields scale linearly with its strength, superpose over directions of vector sources, reverse with the direction, are unchanged when source and observation points are shifted together (within the symmetry of the medium), rotate with the source when both are rotated about a symmetry axis of the medium, and obey reciprocity when source and receiver change places.",
     ["inputs"], "all sources, strengths, shifts and rotations allowed by the medium",
     "Tests place sources at the origin along axes.",
     ["geoana/em", "geoana/gravity.py"], [("field methods of every source class", "geoana/em")], ["results of transformed problems"],
     "metamorphic monitor: linearity, translation and rotation relations between real executions", "Exploration over a registry of the source classes; needs no reference solution.")

prop("C28", "Concurrent evaluation gives the single-threaded results",
     "Evaluating any fields, transforms and kernels from many threads at once, on shared or separate objects and shared input arrays, returns exactly the results of sequential evaluation, and never crashes or corrupts memory.",
     ["schedules", "inputs"], "all interleavings of evaluations from several threads",
     "Tests are single-threaded.",
     [K + "_extensions/rTE.pyx", K + "_extensions/_rTE.cpp", K + "_extensions/potential_field_prism.pyx", "geoana/em", "geoana/gravity.py"],
     [("no shared mutable state; kernels release or hold the GIL", K + "_extensions/rTE.pyx")], ["results per thread, ThreadSanitizer reports"],
     "stress schedules with tiny switch interval and injected yields, result monitor; ThreadSanitizer build of the kernels", "Exploration of schedules; TSan for the native kernels.")

prop("C29", "Earthquake displacement is the exact rectangular-dislocation solution",
     "For every fault geometry, slip, elastic parameters and observation grid, the modelled surface displacement is the exact solution for a rectangular dislocation in an elastic half-space in the model's strike, dip, rake convention, evaluated on the grid described by origin and axes; displacement is proportional to slip, independent of the other grid points, and follows the fault when it is moved or turned.",
     ["inputs"], "all faults, slips, elastic parameters and grids",
     "Tests compare one stored example.",
     ["geoana/earthquake/oksar.py"], [("Oksar.displacement_vector / simulation_grid", "geoana/earthquake/oksar.py")], ["displacement_vector, simulation_grid"],
     "value monitor against an independent dislocation (Green's function quadrature) reference + equivariance monitors", ORACLE.format("Mindlin/Okada-free surface Green's function quadrature and closed form"))

prop("C30", "Interferogram metadata round-trips and geometry is exact",
     "An interferogram keeps and returns exactly the metadata it was given, in each accepted form, independently of the order of assignment; its line-of-sight vectors are unit vectors given by the satellite geometry for every location, and wrapped plots show the data modulo the fringe interval without changing the data.",
     ["inputs", "histories"], "all metadata values, locations and satellite geometries",
     "Tests check one stored example.",
     ["geoana/earthquake/oksar.py"], [("EarthquakeInterferogram properties, get_LOS_vector", "geoana/earthquake/oksar.py")], ["attribute reads, LOS vectors, plotted arrays"],
     "round-trip monitor and value monitor against spherical-earth geometry", ORACLE.format("independent geometry"))

prop("C31", "Plots show the data they were given",
     "For every data set, grid, level, scale and option combination accepted by the 2-D plotting helper, the plotted values interpolate the data within its hull, honour the requested limits, level and vector options, leave the inputs unchanged and return the plotted artists in the requested axes.",
     ["inputs", "configurations"], "all combinations of plotting options and data",
     "Tests check that a few calls do not raise.",
     ["geoana/plotting_utils.py"], [("plot2Ddata", "geoana/plotting_utils.py")], ["matplotlib artists: arrays, levels, limits, quivers"],
     "monitor on recorded matplotlib artists", ORACLE.format("independent interpolation of linear data and direct inspection of artists"))

prop("C32", "Options left out take their defaults; position and keyword agree",
     "For every public class, method and function, leaving any set of optional arguments out gives exactly what spelling out their documented defaults gives, in every readable parameter and every result, whatever other objects did before; the same arguments mean the same by position in the documented order, by keyword in any order, and under the older names still offered (the *_2_* coordinate transforms, LineCurrentFreeSpace); unknown, misspelt and missing required constructor arguments are refused with TypeError.",
     ["inputs", "configurations", "histories"], "all sets of omitted options, orders and forms of passing arguments",
     "Tests construct objects with one or two fixed sets of arguments and seldom read the rest.",
     ["geoana/em/base.py", FD, TD, ST, "geoana/gravity.py", "geoana/spatial.py", "geoana/earthquake/oksar.py"],
     [("constructor chains and default arguments", "geoana/em/base.py")], ["parameters and results of equivalent calls"],
     "equivalence monitor between executions with omitted and with spelled-out arguments, and a table of the documented defaults", "Exploration over a registry of classes, functions and options.")


def main():
    checks, na = [], []
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
            if os.path.exists(os.path.join(V, "harness", "checks", p["id"].lower() + ".py")):
                checks.append({
                    "property": p["id"],
                    "quick_cmd": "python3 harness/run.py %s" % p["id"],
                    "thorough_cmd": "VERIF_TIER=thorough python3 harness/run.py %s" % p["id"],
                    "technique": "runtime monitoring: " + p["technique"],
                    "level": "exploration", "level_note": p["note"]})
            else:
                na.append({"property": p["id"], "reason": "check not built yet"})
    m = {"version": 1, "setup_cmd": "python3 harness/run.py --setup", "checks": checks,
         "not_applicable": na,
         "notes": "No hooks in /repo. Every check imports /repo's working tree and, where native code is involved, builds the extension modules from it into /verif/.cache."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
