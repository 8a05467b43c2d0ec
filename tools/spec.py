"""Single source of properties.jsonl and MANIFEST.json: python3 tools/spec.py writes both."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, technique=technique, note=note))


prop(
    "C01", "Isopycnal surfaces solve their defining equation in every water column",
    "Each column of a potential density (or specific volume) or in-situ anomaly surface with a given reference and isovalue either satisfies the defining equation (the variable, evaluated on the vertically interpolated S and T, crosses the isovalue within the solver tolerance of the returned pressure) with s, t on the interpolant at p and p inside the column's valid water, or is NaN in s, t and p together. "
    "A column is not NaN whenever the isovalue lies between the variable's values at the two ends of its valid water, is NaN whenever no point of it attains the isovalue or it has fewer than two usable bottles, and the reported number of wet columns is right. "
    "This holds for every equation of state, interpolant, tolerance, Boussinesq setting and pattern of missing data.",
    ["inputs", "configurations"], "every hydrography (any number of horizontal dimensions, any NaN pattern, stable or not), reference, isovalue, eos, interpolant, tolerance",
    "The tests compute four or so surfaces on one synthetic ocean with one equation of state and check the mean residual; they reach no masked or unstable columns, no isovalue outside the ocean and few of the option combinations.",
    ["neutralocean/surface/isopycnal.py", "neutralocean/surface/_vertsolve.py", "neutralocean/fzero.py", "neutralocean/ppinterp/"],
    [("vertical solver per column", "surface/_vertsolve.py"), ("isopycnal driver", "surface/isopycnal.py:_isopycnal"), ("bracketing root search", "fzero.py")],
    ["returned s, t, p, d of potential_surf, anomaly_surf"],
    "property-based testing: generated oceans, per-column reference model with interval reasoning on an independent interpolant and equation of state",
    "23 shards over (kind, eos, interpolant, Boussinesq); each column's verdict (must exist / must not / either) is forced by an independent scipy + reference-EOS model.",
)
prop(
    "C02", "A surface is selected by ref, isoval and pin exactly as documented",
    "A surface pinned at a bottle passes through that bottle exactly, and the reported reference and isovalue are those of the variable at the bottle; a given reference and isovalue are reported back unchanged and define the surface even when a pin is also given. "
    "A missing reference is filled from the pinned bottle (its pressure for a potential surface, its S and T for an anomaly surface), the isovalue is then that of the bottle, and the surface returned is the one the reported reference and isovalue define.",
    ["inputs", "configurations"], "every ocean, pinning bottle in any accepted form, and combination of the selection options",
    "The tests use one pin and check one of the option combinations; a wrong default or precedence shows only for the others.",
    ["neutralocean/surface/isopycnal.py", "neutralocean/lib.py"],
    [("selection logic", "surface/isopycnal.py:_choose_ref_isoval or equivalent"), ("local bottle lookup", "lib.py:local_functions / val_at")],
    ["s, t, p and the diagnostics 'ref', 'isoval' returned by potential_surf, anomaly_surf"],
    "property-based testing: metamorphic (recompute from reported values) and reference-model checks over generated selections",
    "10 shards over kind, eos, interpolant.",
)
prop(
    "C03", "A neutral link joins a bottle to the neutrally buoyant point of a cast",
    "Linking a bottle to a cast returns a point of the cast (S and T on the interpolant, pressure within the valid water) whose density equals the bottle's when both are referenced to their average pressure, to within the tolerance; or all NaN. "
    "It finds a point whenever the density difference has opposite signs at the two ends of the valid water, or at the bottle's level and one end, or vanishes at the shallowest bottle, and gives NaN when no point of the cast is neutral with the bottle or the cast has fewer than two usable bottles.",
    ["inputs", "configurations"], "every bottle, cast (missing data included), eos, interpolant, tolerance",
    "The tests do not call the neutral link on its own; only through one trajectory.",
    ["neutralocean/traj.py", "neutralocean/fzero.py"],
    [("bottle to cast solver", "traj.py:ntp_bottle_to_cast")], ["ntp_bottle_to_cast result"],
    "property-based testing: generated bottles and casts against an independent density-difference model",
    "12 shards over eos, interpolant, Boussinesq.",
)
prop(
    "C04", "A neutral trajectory is the chain of neutral links over its casts",
    "A neutral trajectory over a sequence of casts starts at the given pressure of the first cast with the S and T interpolated there, and each later point is the neutral link of the point before it. "
    "Once a cast has no neutral link, that and all later points are NaN (all of them if the first cast has fewer than two usable bottles); the result does not depend on the layout of the arrays, and the inputs are not modified.",
    ["inputs", "configurations"], "every sequence of casts, starting pressure, layout, eos, interpolant, tolerance",
    "The tests follow one trajectory over a few complete casts; outcrops, missing casts and layouts are not reached.",
    ["neutralocean/traj.py"],
    [("trajectory", "traj.py:neutral_trajectory")], ["neutral_trajectory result"],
    "property-based testing: generated cast sequences, chain compared link by link with an independent model",
    "11 shards over eos, interpolant, Boussinesq.",
)
prop(
    "C05", "The root finder returns a bracketed root, or NaN only if it may",
    "For every continuous or discontinuous finite function, range, guess and tolerance, the root finders return either a point of the range within the tolerance of a sign change or zero of the function, or NaN. "
    "They never return NaN when the function changes sign between the ends of the range (or, with a guess, between the guess and an end) or is zero at an end, they never evaluate the function outside the range and always terminate in a bounded number of evaluations. The search for a bracket returns bounds within the range that contain the guess and a sign change, or both NaN.",
    ["inputs"], "every function, range, guess and tolerance",
    "The tests use three smooth functions and one guess each.",
    ["neutralocean/fzero.py"],
    [("bracket expansion", "fzero.py:guess_to_bounds"), ("Brent", "fzero.py:brent"), ("both", "fzero.py:brent_guess")], ["return values; points at which the function is evaluated"],
    "property-based testing: 11 families of generated functions, sign-change oracle on a recorded evaluation history",
    "8 shards; tolerance slack 2(2 eps |b| + tol), the bound of the algorithm itself.",
)
prop(
    "C06", "1-D interpolation returns the documented interpolant and its derivatives",
    "Linear and PCHIP interpolation return the mathematical interpolant of the valid data (and its derivatives of any order from 0 up) at every point between the first and the last valid abscissa, ends included, and NaN everywhere else, for missing sites, and where fewer than two valid points exist. "
    "At the data points the interpolant reproduces the data, it stays within the range of the neighbouring data, and missing values before or after the valid data change nothing.",
    ["inputs"], "every table, NaN pattern, evaluation site and derivative order",
    "The tests interpolate one table at a handful of sites with derivative 0-1.",
    ["neutralocean/ppinterp/linear.py", "neutralocean/ppinterp/pchip.py", "neutralocean/ppinterp/lib.py"],
    [("coefficients and 1-D kernels", "ppinterp/linear.py, ppinterp/pchip.py"), ("valid range", "ppinterp/lib.py:valid_range_1")], ["the 1-D interpolation functions of the factory"],
    "property-based testing: differential against scipy's PCHIP / exact linear interpolant on the valid block, plus shape invariants",
    "linear and pchip, 4 shards each.",
)
prop(
    "C07", "All interpolation variants agree, for any broadcastable shapes and history",
    "Every variant of an interpolant that can be requested (scalar or universal, direct or through precomputed polynomial coefficients, one or two dependent variables, with or without NaN handling) gives the same values, for every broadcastable combination of site, abscissa and data shapes. "
    "What a request returns does not depend on earlier requests, and an invalid request raises an error.",
    ["inputs", "configurations", "histories"], "every variant, broadcastable shapes, derivative order, request history",
    "The tests compare a few variants on one shape; broadcasting and request histories are not reached.",
    ["neutralocean/ppinterp/ppinterp.py", "neutralocean/ppinterp/tools.py"],
    [("variant factory", "ppinterp/tools.py:make_pp"), ("polynomial evaluation and gufuncs", "ppinterp/ppinterp.py")], ["make_pp results"],
    "property-based testing: differential between variants and against element-by-element evaluation; stateful histories of factory requests",
    "4 sub-checks.",
)
prop(
    "C08", "Equations of state return the published density or specific volume",
    "Each equation of state (JMD95, JMDFWG06, TEOS-10 native and compiled) returns the published polynomial's density or specific volume, to round-off, at every point of the oceanographic range, for scalars, arrays and broadcast combinations. "
    "NaN in any argument gives NaN, and the TEOS-10 function agrees with the reference GSW library.",
    ["inputs"], "0 <= S <= 42, -2.5 <= T <= 40, 0 <= P <= 11000, any shapes",
    "The tests compare single check values; a wrong coefficient of small weight, or one that matters only at depth, passes.",
    ["neutralocean/eos/"],
    [("polynomials", "eos/jmd95.py, eos/jmdfwg06.py, eos/gsw.py, eos/gswc.py")], ["rho / specvol functions"],
    "property-based testing: differential against independently transcribed polynomials and the GSW C library",
    "4 equations of state.",
)
prop(
    "C09", "The EOS derivative functions are the derivatives of the EOS",
    "The partial derivatives offered with each equation of state with respect to S, T and pressure (and the higher and mixed ones offered for TEOS-10, alone or combined) equal the derivatives of that equation of state at every point of the oceanographic range. "
    "Combined functions return the same numbers, in the documented order, as the single ones.",
    ["inputs"], "0.001 <= S <= 42, -2.5 <= T <= 40, 0 <= P <= 11000",
    "The tests use a finite difference at a point or two.",
    ["neutralocean/eos/"],
    [("derivative functions", "eos/*.py *_s_t, *_p, *_s_t_ss_st_tt_..., etc.")], ["derivative functions"],
    "property-based testing: complex-step and finite-difference differentiation of independent references",
    "4 equations of state.",
)
prop(
    "C10", "Factories and surface calls are independent of what was requested before",
    "A function obtained for an equation of state by name or by function, with or without Boussinesq constants, derivative or vectorisation, computes exactly what was asked for (depth z gives the base function at pressure 1e-4 grav rho_c z, derivatives carrying the chain-rule factor), whatever was requested earlier in the process and in whatever order. "
    "Surfaces computed one after another with different settings equal those computed alone; unknown names and half-given Boussinesq constants raise an error or are handled as documented.",
    ["histories", "configurations"], "every sequence of factory requests and surface computations",
    "The tests request each function once; caches only matter over histories.",
    ["neutralocean/eos/tools.py", "neutralocean/lib.py", "neutralocean/surface/"],
    [("caches", "eos/tools.py, lru_cache'd factories"), ("names", "eos/tools.py:load_eos")], ["functions returned; surfaces returned"],
    "stateful property-based testing: random request histories judged request by request against a model",
    "5 + 3 shards.",
)
prop(
    "C11", "Neutrality errors and their norms are what their definitions say",
    "The neutrality error along each edge is the difference of S and of T from its first to its second end, times the partial derivatives of the equation of state at the average of the two ends, over their distance, and NaN where either end is dry; its RMS and mean absolute norms are weighted by the area of each edge (distance times perpendicular distance) over the finite edges only. "
    "The norms reported in the diagnostics of every surface are those of the returned surface, and leaving distances out means distance one.",
    ["inputs", "configurations"], "every surface, edge list, distance form, eos, Boussinesq setting",
    "The tests check the norm of a few surfaces against a single reference ocean.",
    ["neutralocean/ntp.py", "neutralocean/surface/"],
    [("errors", "ntp.py:ntp_epsilon_errors"), ("norms", "ntp.py:ntp_epsilon_errors_norms"), ("diagnostics", "surface/isopycnal.py, surface/omega.py")], ["returned errors, norms, diagnostics dict"],
    "property-based testing: generated surfaces and graphs against a direct recomputation",
    "7 + 5 shards.",
)
prop(
    "C12", "An omega surface is a well-formed surface through the pinned bottle",
    "For every ocean, grid, start and option, an omega surface is finite or NaN together in s, t and p, lies within the valid water of each column with s and t on the interpolant, and passes through the pinned bottle. "
    "Only columns connected through the grid to the pinned column are on the surface (without wetting: only those so connected on the starting surface), columns join it only in the wetting iterations asked for, and the number of iterations respects the requested minimum and maximum. "
    "A column where the surface after an iteration is shallower than the mixed layer is taken off the surface at the start of the next iteration.",
    ["inputs", "configurations"], "every ocean, grid graph, pin, starting surface, mixed layer, wetting window, formulation and tolerance",
    "The tests compute two omega surfaces on one unmasked synthetic ocean.",
    ["neutralocean/surface/omega.py", "neutralocean/bfs.py", "neutralocean/surface/_vertsolve.py"],
    [("driver", "surface/omega.py:omega_surf"), ("connected component", "bfs.py")], ["s, t, p, d of omega_surf"],
    "property-based testing: generated oceans and grids, invariants of the result against an independent interpolant",
    "6 shards.",
)
prop(
    "C13", "Omega surfaces converge and are at least as neutral as the alternatives",
    "On smooth, stable oceans whose surface neither outcrops nor grounds, an omega surface ends with a smaller (within 2 %) RMS neutrality error than the surface it started from, and than the potential density and anomaly surfaces through the same bottle; every edge that lies on no loop of the grid (on a grid without loops, all) ends exactly neutral. "
    "It stops at the first iteration, after the minimum number, at which the stopping measure in force falls below its limit, whether or not diagnostics are requested. The diagnostics hold, for the start and every iteration, the neutrality errors and the number of columns of the surface then, and the mean heave, the mean, RMS and largest pressure change and the number of newly wet columns of that iteration.",
    ["inputs", "configurations"], "every smooth stable ocean, connected grid, start, formulation and stopping rule",
    "The tests compare one omega surface with one potential density surface.",
    ["neutralocean/surface/omega.py"],
    [("iterations and stopping rule", "surface/omega.py:_omega_surf")], ["s, t, p, d of omega_surf"],
    "property-based testing: metamorphic comparison of surfaces, optimality and stopping-rule oracle, diagnostics recomputed from the surfaces of 0, 1, ... iterations",
    "10 shards.",
)
prop(
    "C14", "Each omega iteration is the weighted least-squares heave of the surface",
    "One iteration moves every column of the connected surface by the heave that minimises the area-weighted sum of squared neutrality errors over its edges while leaving the pinned column in place; the density of each column's water, referenced to the surface's old local pressure, changes by exactly that heave. "
    "Both formulations (Poisson and gradient) realise the same minimisation, with distances given, scalar or left out.",
    ["inputs", "configurations"], "every ocean, surface, graph, set of distances and formulation",
    "The tests look only at the final surface of one ocean, which a wrong weight still approaches.",
    ["neutralocean/surface/omega.py", "neutralocean/surface/_vertsolve.py"],
    [("matrix and right-hand side", "surface/omega.py:_omega_matsolve_poisson, _omega_matsolve_grad"), ("vertical update", "surface/_vertsolve.py:_vertsolve_omega")], ["surfaces after k-1 and k iterations; reported mean heave"],
    "property-based testing: step-by-step differential against a dense weighted least-squares solution",
    "6 shards; start drawn inside the water, all early-stopping tolerances off.",
)
prop(
    "C15", "Connected components and perimeter wetting are exact",
    "The breadth-first search visits exactly the columns connected to the root through unmasked columns, each once, in breadth-first order from the root. "
    "Wetting adds dry columns exactly where a neighbouring column on the surface has a neutral link to it below the mixed layer, placing them at that link (in the perimeter variant: at the mean of the links from its wet neighbours, for the given number of rings), with s and t on the interpolant. It reports how many it added, leaves columns that were wet in place, and drops those not connected to the root.",
    ["inputs"], "every graph, mask, root; every ocean, partially wet surface and mixed layer",
    "The tests never call the search on its own; the oceans they use have no perimeter to wet.",
    ["neutralocean/bfs.py"],
    [("search", "bfs.py:bfs_conncomp1"), ("search with wetting", "bfs.py:bfs_conncomp1_wet, bfs_conncomp1_wet_perim"), ("graph arrays", "grid/graph.py")], ["visit order, counts, s, t, p after the call"],
    "property-based testing: reference breadth-first search and independent neutral links",
    "2 + 6 shards.",
)
prop(
    "C16", "Rectilinear and tripolar grids join exactly the neighbouring columns",
    "The rectilinear grid has one edge for each pair of adjacent columns, wrapping around exactly in the periodic dimensions, and the tripolar grid is periodic in longitude and folds along its northern row; each edge carries the distance and perpendicular distance supplied for its cell face. "
    "Distances may be numbers, or arrays of any broadcastable (or documented padded) shape, and mapping edge data back to 2-D puts each value at its own face.",
    ["inputs", "configurations"], "every grid size, periodicity and form of the distances",
    "The tests build one rectilinear grid with unit distances.",
    ["neutralocean/grid/rectilinear.py", "neutralocean/grid/tripolar.py"],
    [("rectilinear", "grid/rectilinear.py:build_grid"), ("tripolar", "grid/tripolar.py:build_grid"), ("maps", "edgedata_to_maps")], ["edges, dist, distperp; maps"],
    "property-based testing: cell-by-cell enumeration of the expected edges",
    "4 + 4 shards.",
)
prop(
    "C17", "Grids of connected tiles join exactly the neighbouring columns",
    "The grid built from connected square tiles has exactly one edge for each pair of adjacent columns, within a tile and across the seams between tiles in whatever orientation they are glued, and none across unconnected sides. "
    "Each edge carries the distance and perpendicular distance given for its face, for every order of the dimensions, staggering and form of the distances.",
    ["inputs", "configurations"], "every tile size, gluing, staggering, dimension order and form of the distances",
    "No test builds a tiled grid.",
    ["neutralocean/grid/xgcm.py"],
    [("tile seams", "grid/xgcm.py:build_grid")], ["edges, dist, distperp"],
    "property-based testing: random gluings, expected edges found by walking over the glued sides",
    "random gluings, cubed sphere and ECCO topology.",
)
prop(
    "C18", "Graph representations convert without losing, adding or moving an edge",
    "Converting between edge lists, sparse or dense matrices and the neighbour lists used by the algorithms keeps every edge with its distances and adds none, for undirected graphs in any of the accepted forms. "
    "Edge values computed from node values pair the right nodes, and the divergence of an edge vector is the net outflow through the faces of each column over its area.",
    ["inputs"], "every graph in every accepted representation",
    "The tests convert one small matrix.",
    ["neutralocean/grid/graph.py", "neutralocean/grid/tools.py"],
    [("conversions", "grid/graph.py")], ["return values of the graph functions"],
    "property-based testing: round-trips and a set model of the graph",
    "6 shards.",
)
prop(
    "C19", "Surfaces do not depend on how inputs are represented and leave them alone",
    "Potential, anomaly and omega surfaces are the same for every accepted representation of the same inputs: position or name of the vertical dimension, memory layout, precision, ndarray or labelled array, shared or full pressures, forms of the pinned column, of the grid and of the equation of state; labelled inputs give labelled results with the horizontal dimensions and coordinates. "
    "No call modifies any array, list or dict passed to it.",
    ["inputs", "configurations"], "every accepted representation of every input",
    "The tests use two representations (ndarray, DataArray) of one ocean.",
    ["neutralocean/lib.py", "neutralocean/surface/"],
    [("input processing", "lib.py:_process_casts, _process_pin_cast, _process_vert_dim, xr_to_np ..."), ("output labelling", "lib.py:_xr_in, _xr_out")], ["s, t, p, d; the inputs after the call"],
    "property-based testing: metamorphic (same inputs, other representation) and before/after comparison of the inputs",
    "8 shards.",
)
prop(
    "C20", "A surface depends on the physics, not on numbering, padding or remote water",
    "Renumbering the columns or edges, padding columns with missing levels, adding bottles that lie on the linear interpolant, and scaling all distances (along or across the edges) leave a surface unchanged (renumbered alike). "
    "An isopycnal surface in one column depends on that column (and the selection) only, and an omega surface does not depend on columns it is not connected to.",
    ["inputs"], "every ocean, surface and physics-preserving transformation",
    "The tests compute each surface once, so relate no two of them.",
    ["neutralocean/surface/", "neutralocean/bfs.py", "neutralocean/ppinterp/"],
    [("per-column solver", "surface/_vertsolve.py"), ("graph algorithms", "bfs.py, surface/omega.py")], ["s, t, p"],
    "property-based testing: metamorphic relations",
    "4 + 3 shards.",
)
prop(
    "C21", "The mixed layer is found where the density difference reaches the threshold",
    "The mixed layer pressure is where the potential density (referenced to the given pressure) exceeds that of the near-surface bottle by the given amount, in every column whose potential density increases downwards; it is found by interpolating pressure as a function of the density difference, and is NaN where the column never reaches it or the near-surface bottle is missing. "
    "It is the same for density and specific volume equations of state, for any layout, and an omega surface given mixed-layer options equals the one given the mixed layer itself.",
    ["inputs", "configurations"], "every ocean, threshold, reference pressure, near-surface bottle, eos and interpolant",
    "No test computes a mixed layer.",
    ["neutralocean/mixed_layer.py", "neutralocean/surface/omega.py"],
    [("mixed layer", "mixed_layer.py:mixed_layer")], ["mixed_layer result; omega surfaces"],
    "property-based testing: bracketing by an independent equation of state and interpolant; differential dict/array",
    "6 + 2 shards.",
)
prop(
    "C22", "Veronis density integrates the local potential density gradient",
    "Veronis density between two pressures of a column is the potential density at the first plus b times the integral of the vertical gradient of locally referenced potential density to the second, to within the accuracy of the requested step, for every column, reference pressure and equation of state, Boussinesq or not. "
    "It is NaN when either pressure lies outside the valid water, padding the column with missing values at the bottom changes nothing, and integrating back gives the opposite integral.",
    ["inputs", "configurations"], "every column, pair of pressures, reference, factor, step and eos",
    "No test reaches it with a column that has missing data or a step that does not divide the interval.",
    ["neutralocean/label.py"],
    [("integration", "label.py:veronis")], ["veronis result"],
    "property-based testing: Gauss-Legendre quadrature of the published EOS derivatives",
    "6 shards.",
)
prop(
    "C23", "Stabilising hydrography enforces the threshold with the least change",
    "After stabilisation, the gradient of locally referenced potential density between every two adjacent bottles of every column is at least the given threshold; columns that met it already, missing data and pressures are unchanged. "
    "The change is, within the optimiser's accuracy, the smallest in the weighted sum of squares of S and T changes, for every vertical dimension, layout, weight and threshold; and the count of unstable bottles is the number of adjacent pairs whose density does not increase downwards.",
    ["inputs", "configurations"], "every ocean, threshold, weight, layout",
    "No test calls it.",
    ["neutralocean/stability.py"],
    [("constrained minimisation", "stability.py:stabilize_ST"), ("count", "stability.py:count_unstable")], ["S, T after the call; the count"],
    "property-based testing: constraint recomputed with an independent EOS, optimality against an independent minimisation",
    "3 x 2 + 3 shards.",
)

prop(
    "C24", "No computation reads or writes outside its arrays",
    "Whatever the shapes, missing data, graphs and arguments (casts with none, one or two bottles, points outside the data, empty and disconnected graphs), no computation accesses memory outside the arrays it was given or made. "
    "Results do not depend on the memory surrounding the arguments, which is left untouched.",
    ["inputs", "configurations"], "every valid call of the interpolation, root, link, trajectory, surface, wetting, mixed layer, Veronis and stabilisation routines",
    "Compiled code does not check indices: a stray read returns whatever lies there and the tests pass by luck.",
    ["neutralocean/ppinterp/", "neutralocean/bfs.py", "neutralocean/traj.py", "neutralocean/surface/", "neutralocean/label.py", "neutralocean/lib.py"],
    [("compiled kernels", "every @nb.njit and @nb.guvectorize function")], ["IndexError under NUMBA_BOUNDSCHECK=1; results with different surroundings"],
    "fuzzing of compiled code with bounds checking on, and a metamorphic check with poisoned surroundings",
    "Reuses the generators of C01, C04, C06, C07, C12, C15, C21-C23. Negative indices that wrap around are not out of bounds.",
)
prop(
    "C25", "Column and grouping utilities address the right bottles and groups",
    "For arrays of any shape, axis, layout and pattern of missing values: the first missing index along an axis is found (the length of the axis if there is none), values at per-column indices are those of that level, linear look-ups fill missing (negative) indices, sums by group add exactly the members of each group, and the valid range is the first contiguous block of valid data. "
    "Missing (negative) indices give NaN or the fill value, and inputs are not modified.",
    ["inputs"], "every array, axis, index and group assignment",
    "The tests do not call them directly.",
    ["neutralocean/lib.py", "neutralocean/ppinterp/lib.py"],
    [("utilities", "lib.py:find_first_nan, val_at, take_fill, aggsum; ppinterp/lib.py:valid_range*")], ["return values"],
    "property-based testing: element-by-element recomputation",
    "4 shards.",
)
prop(
    "C26", "A Boussinesq ocean in depth equals the same ocean in pressure",
    "Every computation on depths z with grav and rho_c given (potential, anomaly and omega surfaces, neutral links and trajectories, Veronis density, mixed layer, neutrality errors and norms) gives the result of the same computation on the pressures 1e-4 grav rho_c z without them, with pressure-like arguments and results scaled alike. "
    "This holds for every equation of state given by name and for every interpolant.",
    ["inputs", "configurations"], "every stable ocean, computation, eos, interpolant and pair of constants",
    "The tests run Boussinesq and non-Boussinesq on different data and never relate them.",
    ["neutralocean/eos/tools.py", "neutralocean/lib.py", "neutralocean/surface/", "neutralocean/traj.py", "neutralocean/label.py", "neutralocean/mixed_layer.py", "neutralocean/ntp.py"],
    [("Boussinesq conversion", "eos/tools.py:make_bsq"), ("passing grav, rho_c on", "every public function")], ["results of the public functions"],
    "property-based testing: metamorphic relation between two runs",
    "12 shards over computation, eos, interpolant.",
)
prop(
    "C27", "The synthetic ocean has its documented shape, walls, ranges and geometry",
    "The synthetic ocean has the requested shape, pressures rising from 0 to the requested bottom, missing data exactly at the walls of the non-periodic dimensions, S and T linear in the level, surface temperatures spanning -1.8 to 30, zonal uniformity when requested, and a southern salinity anomaly that ramps to 0 northwards and fades to 0 at the bottom. "
    "Its grid geometry is that of a uniform latitude-longitude grid from 80S to 60N on the sphere, whose cell areas add up to the area of that band.",
    ["inputs", "configurations"], "every shape, bottom pressure, anomaly, periodicity and uniformity",
    "The tests use one synthetic ocean as input and never check it.",
    ["neutralocean/synthocean.py"],
    [("generator", "synthocean.py:synthocean")], ["S, T, P, g"],
    "property-based testing: invariants and metamorphic comparison of parameters",
    "2 shards.",
)

prop(
    "C28", "Requests that do not describe one problem are refused, others are answered",
    "A surface, link, trajectory, mixed layer, Veronis, stabilisation, neutrality-error, grid or factory request raises an exception instead of returning an answer (or touching memory outside its arrays) when it does not describe one problem: no surface selected, a reference, pinning cast or pressure of the wrong kind or outside the ocean, an unknown equation of state, interpolant or omega formulation, arrays of water columns (or an initial surface or mixed layer) whose shapes do not match, a vertical dimension that is not there, edges that join nodes that do not exist, edge data of the wrong length or for diagnostics no edges at all, an omega pin without water, tile dimensions that are not there. "
    "The same request without the mistake is answered, and equivalent spellings of it (list or tuple, name or functions, 1-D or full pressures, formulation in any case, labelled arrays) give the same answer.",
    ["inputs", "configurations"], "every request made of a well-formed one by one or two of the listed mistakes, or by an equivalent spelling",
    "The tests make only well-formed requests, nearly all spelled the same way.",
    ["neutralocean/lib.py", "neutralocean/surface/isopycnal.py", "neutralocean/surface/omega.py", "neutralocean/traj.py", "neutralocean/ntp.py", "neutralocean/grid/graph.py", "neutralocean/grid/rectilinear.py", "neutralocean/grid/xgcm.py", "neutralocean/eos/tools.py", "neutralocean/ppinterp/tools.py"],
    [("argument checks of isopycnals", "surface/isopycnal.py:_check_ref"), ("argument checks of omega", "surface/omega.py:omega_surf"), ("casts", "lib.py:_process_casts"), ("equation of state", "lib.py:_process_eos"), ("edges", "grid/graph.py:edges_to_csr")],
    ["raised exceptions, returned surfaces"],
    "property-based testing: mistakes injected into generated requests; differential between spellings",
    "6 shards; any exception counts as refusal.",
)


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            d = dict(
                id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], observe_at=p["observe"], hook_needed=None),
            )
            assert len(p["title"]) <= 80, p["title"]
            assert p["statement"].count(". ") <= 2, p["id"]
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    m = dict(
        version=1,
        setup_cmd="python3 run.py --setup",
        checks=[
            dict(
                property=p["id"],
                quick_cmd=f"python3 run.py {p['id']} --tier quick",
                thorough_cmd=f"python3 run.py {p['id']} --tier thorough",
                technique=p["technique"],
                level="exploration",
                level_note=p["note"],
                evidence_file=f"evidence/{p['id']}.json",
            )
            for p in P
        ],
        not_applicable=[],
        notes="Python is interpreted and numba compiles from /repo at import, so every check runs /repo's working tree; no hooks. Replay: python3 run.py <id> --replay <file>. VERIF_SEED picks the seed.",
    )
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


if __name__ == "__main__":
    main()
