"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py > properties.jsonl)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
B = "jax_cfd/base/"; S = "jax_cfd/spectral/"; M = "jax_cfd/ml/"; D = "jax_cfd/data/"; C = "jax_cfd/collocated/"

p("C01", "Ghost cells realise the field's boundary conditions",
  "Whenever a field is shifted or padded past the edge of its domain, the ghost values it acquires realise that field's boundary conditions: periodic axes wrap around, a prescribed wall value is reproduced on the wall (exactly for samples on the wall, as the mean of the two samples straddling it otherwise), a prescribed wall gradient is reproduced by the one-sided difference across the wall, and deeper ghost layers follow the requested mirror or extend rule, for non-zero as well as zero boundary values. Values inside the domain are carried over unchanged to the right position, axes other than the padded one are not mixed, and the location reported for the result says where its samples lie.",
  ["inputs", "configurations"], "all arrays, grids (1-3 dimensions, any step), staggered offsets, mixtures of boundary types and values per side, shift amounts, pad widths on either side and extension modes",
  "The tests enumerate a few hand-written arrays per boundary type, almost all with unit steps and equal values on both sides; the guarantee is over every array, offset, side, width, anisotropic grid and value, and every call made during a simulation.",
  [B+"boundaries.py", B+"grids.py"],
  [("shift/pad/pad_all build ghost cells per boundary type", B+"boundaries.py:ConstantBoundaryConditions"), ("GridVariable.shift delegates to its bc", B+"grids.py:GridVariable")],
  [B+"boundaries.py shift/pad/pad_all", "every such call made while real solvers run"])

p("C02", "Imposing boundary conditions fixes wall values and only wall values",
  "Imposing boundary conditions on a field sets every sample that lies on a wall to the prescribed wall value, leaves every sample inside the domain untouched, discards ghost samples, keeps the field's location, grid and boundary conditions, and changes nothing when applied twice; trimming returns exactly the samples strictly inside the domain (all of them on periodic axes). The boundary conditions the library derives for pressure and for advective fluxes are periodic exactly where the velocity is periodic, zero-gradient for pressure at walls and zero for the flux through an impermeable wall, and unsupported or inconsistent combinations are rejected.",
  ["inputs", "configurations"], "all fields, padded or not, offsets, grids, boundary types and values, velocity/scalar combinations",
  "Tests impose boundary conditions on a few constant arrays; the guarantee covers every field content, padding, offset and mixture of boundary types, and each imposition inside a running simulation.",
  [B+"boundaries.py", B+"grids.py"],
  [("impose_bc = trim_boundary then pad_and_impose_bc", B+"boundaries.py"), ("derived pressure and flux boundary conditions", B+"boundaries.py:get_pressure_bc_from_velocity,get_advection_flux_bc_from_velocity_and_scalar")],
  [B+"boundaries.py impose_bc/trim_boundary/pad_and_impose_bc"])

p("C03", "Field arithmetic is array arithmetic and never mixes locations or grids",
  "Arithmetic, numpy functions, stacking and splitting on fields equal the same operations on the raw sample arrays and keep the fields' location and grid; combining fields that live at different locations, on different grids, or with different boundary conditions (where one is required) raises an error instead of returning a number. Flattening a field (or tensor of fields) for a transformation and rebuilding it gives back the same values, location, grid and boundary conditions.",
  ["inputs", "programs"], "all expressions over fields, scalars and arrays, all locations, grids and boundary conditions",
  "The tests cover a handful of operators on small fixed arrays; silent mixing of staggered quantities is possible in any expression a user writes.",
  [B+"grids.py", B+"array_utils.py"],
  [("ufunc dispatch with consistency checks", B+"grids.py:GridArray.__array_ufunc__"), ("applied, averaged_offset, consistent_*", B+"grids.py"), ("pytree registration", B+"grids.py"), ("split/concat/slice helpers", B+"array_utils.py")],
  ["results and exceptions of field expressions"])

p("C04", "Grid geometry is self-consistent and locates every sample",
  "For any grid, the number of cells times the step equals the domain length on every axis, and sample coordinates for a given location are lower bound + (index + offset) * step, consistently between 1-D axes, meshes, functions evaluated on the grid and face/centre/control-volume locations. Frequency axes match the grid's size and step, staggering and centring place arrays at the face and centre locations, interior masks are one exactly at the samples strictly inside the domain, grids are values that compare (and hash) equal exactly when shape, step and domain agree, and contradictory specifications are rejected.",
  ["inputs", "configurations"], "all shapes, steps, domains (including non-zero lower bounds and anisotropic steps), offsets and construction routes",
  "Tests look at a few grids with simple domains; geometry must be right for every shape, domain and offset because every operator derives its spacing and position from it.",
  [B+"grids.py"],
  [("Grid construction, axes, mesh, fft_axes, eval_on_mesh, cell_faces", B+"grids.py:Grid"), ("control_volume_offsets, averaged_offset", B+"grids.py")],
  ["attributes and return values of grids"])

p("C05", "Discrete derivatives are exact, local and satisfy the vector identities",
  "Forward, backward and central differences, divergence, gradient tensors, curls and Laplacians return, at the location they report, the stated difference quotient with the grid's own step and the field's boundary conditions, and are exact on the polynomials they are exact on. The discrete identities hold: the Laplacian equals the divergence of the gradient, the divergence of a curl and the curl of a gradient vanish, differences on periodic axes sum to zero, and divergence is minus the adjoint of the gradient.",
  ["inputs", "configurations"], "all fields, 1-3 dimensional anisotropic grids, offsets and boundary conditions",
  "Tests compare single functions with hand-computed arrays on simple grids; the identities and the step/axis/offset bookkeeping have to hold for every field, axis, spacing and boundary.",
  [B+"finite_differences.py"],
  [("difference operators and compositions", B+"finite_differences.py")],
  ["values and offsets returned by the operators, in isolation and during simulations"])

p("C06", "Interpolation is exact on linear data, bounded and upwind where promised",
  "Multilinear interpolation between grid locations, and interpolation to arbitrary points, reproduces linear data exactly, is the stated convex combination of neighbouring samples and honours the field's boundary conditions. Upwind interpolation returns exactly the upstream neighbour for the local velocity sign, the second-order scheme returns the upstream value plus its stated correction, and flux-limited interpolation equals upwind plus the limiter times the high-order correction for the upstream smoothness ratio, reducing to upwind at extrema; the location of the result is always the requested one.",
  ["inputs", "configurations"], "all fields, velocities of either sign, offsets, grids, boundary conditions, limiters and time steps",
  "Tests use few fields on unit grids and mostly one velocity sign; scheme selection depends on every local sign and neighbourhood pattern.",
  [B+"interpolation.py"],
  [("linear, upwind, lax_wendroff, apply_tvd_limiter, point_interpolation", B+"interpolation.py")],
  ["values and offsets returned by interpolation functions, in isolation and during advection"])

p("C07", "Advection conserves the advected quantity and is the divergence of its fluxes",
  "Every flux-form advection and convection routine returns minus the discrete divergence of face fluxes built from its stated interpolations, so the total of the advected quantity changes only through the boundary fluxes (none on periodic or impermeable domains), and a uniform quantity in a discretely divergence-free flow stays unchanged. The different implementations of the same scheme agree with each other, for every field component location, grid spacing and number of dimensions.",
  ["inputs", "configurations"], "all scalars, velocities, locations, grids, schemes and admissible boundary conditions",
  "Tests check conservation on a few smooth or single-cell profiles; it must hold for every field, spacing, location and velocity sign pattern.",
  [B+"advection.py", C+"advection.py"],
  [("flux assembly and flux boundary conditions", B+"advection.py:_advect_aligned,convect_linear,advect_van_leer"), ("collocated analogue", C+"advection.py")],
  ["tendencies returned by advection, and in running simulations"])

p("C08", "Monotone advection schemes create no new extrema or variation",
  "Within its stated stability limit, a step of upwind or semi-Lagrangian advection by any divergence-free flow keeps the scalar within its previous minimum and maximum, and a step of the flux-limited schemes by a uniform flow along one axis does so too and does not increase total variation. Semi-Lagrangian steps return the interpolated value at the upstream departure point, and the stable time step returned by the library is within the limit.",
  ["inputs", "histories"], "all scalar fields including discontinuous and noisy ones, all divergence-free flows, all steps up to the stability limit, and repeated steps",
  "Tests sample Gaussian bumps and unit pulses with constant velocity; monotonicity is a universal statement that is broken by rare sign/extremum patterns.",
  [B+"advection.py", B+"interpolation.py"],
  [("upwind selection and van Leer limiter", B+"interpolation.py"), ("semi-Lagrangian step, stable_time_step", B+"advection.py")],
  ["scalar range and variation before and after each step"])

p("C09", "Diffusion is consistent and its implicit solves satisfy their equation",
  "Explicit diffusion returns viscosity times the discrete Laplacian of the field under its boundary conditions, and never amplifies a field when stepped with the stable time step the library recommends. Implicit diffusion returns the field whose backward-Euler residual under those boundary conditions vanishes, by every solver alike; on periodic or insulated domains the mean is preserved and no new extrema appear, and prescribed wall values are kept.",
  ["inputs", "configurations"], "all fields, viscosities, time steps, anisotropic grids, offsets and boundary conditions",
  "Tests compare solvers on a couple of random fields; the residual must vanish for every grid spacing, boundary value and offset combination.",
  [B+"diffusion.py", B+"array_utils.py", C+"diffusion.py"],
  [("diffuse, stable_time_step, solve_cg, solve_fast_diag and boundary right-hand-side transform", B+"diffusion.py"), ("laplacian matrices", B+"array_utils.py")],
  ["fields before and after each diffusion solve"])

p("C10", "Pressure projection yields the divergence-free part of the velocity",
  "Projecting any velocity field returns one whose discrete divergence vanishes to solver accuracy on every cell, that keeps its wall velocities, locations and boundary conditions, and that differs from the input only by a discrete gradient. Projection is linear and idempotent, leaves divergence-free velocities unchanged, removes pure gradients, never increases kinetic energy (zero wall velocities), and is the same for every pressure solver up to solver accuracy.",
  ["inputs", "configurations"], "all velocities, grids, spacings, dimensions, boundary conditions and solvers; staggered and collocated",
  "Tests project a few random fields on nearly isotropic grids; every simulation relies on the constraint at every step for arbitrary fields.",
  [B+"pressure.py", C+"pressure.py", B+"fast_diagonalization.py"],
  [("projection and pressure solvers", B+"pressure.py"), ("collocated projection", C+"pressure.py")],
  ["velocity before and after each projection, in isolation and during simulations"])

p("C11", "Fast diagonalization applies the stated function of the summed operator",
  "Applying a function of a Kronecker-sum operator by fast diagonalization equals applying that function to the dense operator's spectrum, for every implementation (dense, FFT, real FFT), number of dimensions, shape parity and data type, and the same for all of them. The pseudoinverse inverts the operator on its range and returns zero on its null space, and inputs that violate an implementation's requirements are rejected rather than mis-solved.",
  ["inputs", "configurations"], "all operators of the supported classes, sizes, dimensions, implementations, functions and right-hand sides",
  "Tests try a few sizes and one function; agreement must hold over all shapes (odd/even, anisotropic), spectra and implementations.",
  [B+"fast_diagonalization.py"],
  [("transform, pseudoinverse and per-implementation eigendecomposition", B+"fast_diagonalization.py")],
  ["outputs of the returned linear maps"])

p("C12", "Navier-Stokes steps respect incompressibility, momentum and energy balance",
  "Every step of a flow solver, starting from any admissible velocity, returns a velocity at the same locations with the same boundary conditions that is discretely divergence-free (with walls: unless diffusion is solved implicitly after the projection), equal to the composition of the documented advection, diffusion, forcing and projection terms with the given density, viscosity and time step. On periodic domains mean momentum changes only by the forcing, unforced flow stepped within the stability limit of a dissipative (upwind, or centred and viscous) scheme never gains kinetic energy, and a fluid at rest stays at rest.",
  ["histories", "configurations"], "all multi-step histories from random and structured initial velocities, viscosities, densities, forcings, schemes, time steppers, boundary conditions; staggered and collocated",
  "Tests run a few short simulations and compare a couple of bulk numbers; the balance laws quantify over every state along every trajectory.",
  [B+"equations.py", C+"equations.py", B+"pressure.py", B+"advection.py", B+"diffusion.py"],
  [("semi-implicit and implicit-diffusion steps", B+"equations.py"), ("collocated step", C+"equations.py")],
  ["state after each step"])

p("C13", "Time steppers apply their published Runge-Kutta and IMEX schemes",
  "Every time stepper advances any system exactly as its published tableau prescribes: explicit schemes evaluate stages with the stated coefficients and project each stage and the final state, implicit-explicit schemes combine explicit terms, implicit terms and implicit solves with consistent coefficients, so that each attains its stated order and its stability function on linear problems. Inconsistent coefficient tables are rejected, the state structure is preserved, and steady states remain steady.",
  ["inputs", "programs"], "all explicit/implicit systems (linear, nonlinear, nested states), step sizes and coefficient tables of every supported scheme",
  "Tests check convergence on a few scalar ODEs at loose tolerance; a coefficient or stage-order slip in one scheme, or in rarely used tables, escapes those.",
  [B+"time_stepping.py", S+"time_stepping.py"],
  [("navier_stokes_rk and named schemes", B+"time_stepping.py"), ("IMEX schemes", S+"time_stepping.py")],
  ["stage evaluations (order, arguments) and the advanced state"])

p("C14", "Spectral equations implement their PDE and invert consistently",
  "In the spectral solvers, recovering velocity from vorticity yields a divergence-free velocity with that vorticity, explicit plus implicit terms equal the right-hand side of the stated PDE evaluated in physical space (up to the stated dealiasing), and the implicit solve inverts identity minus step times the implicit operator. The invariants of the PDE hold along simulations: mean vorticity (or mean solution) is preserved, unforced enstrophy and energy do not grow, and real fields stay real.",
  ["inputs", "histories", "configurations"], "all band-limited states, grid sizes, domains, viscosities, drags, forcings and multi-step histories",
  "Tests check a few resolutions on 2-pi domains; the relations hold for every state, aspect ratio, domain length and parameter.",
  [S+"equations.py", S+"utils.py", S+"forcings.py"],
  [("explicit_terms / implicit_terms / implicit_solve", S+"equations.py"), ("vorticity_to_velocity", S+"utils.py")],
  ["terms and solves of each equation, and states along trajectories"])

p("C15", "Spectral dealiasing, filters and padding act only on the stated wavenumbers",
  "Dealiasing filters keep wavenumbers inside the stated band exactly and remove those outside, exponential filters damp monotonically without touching the mean, and padded or truncated transforms represent the same band-limited function so that products of band-limited fields computed through them are alias-free. Differentiating, filtering and transforming back leaves real fields real and preserves the mean.",
  ["inputs", "configurations"], "all fields, grid sizes, domain lengths and filter parameters",
  "Tests check a small number of sizes; truncation, scaling and ordering mistakes show only for particular sizes or wavenumbers.",
  [S+"utils.py", B+"filter_utils.py", B+"grids.py"],
  [("brick_wall/circular/exponential filters, truncated and padded transforms", S+"utils.py"), ("filter", B+"filter_utils.py")],
  ["filter arrays and transformed fields"])

p("C16", "Resampling conserves what it promises",
  "Coarsening a staggered velocity averages over the fine faces making up each coarse face, so that the flux through every coarse face is preserved, the coarse divergence is the mean fine divergence and a divergence-free velocity stays divergence-free; coarsening a scalar by a top-hat filter averages over the coarse cell (the filter window, extended past walls by the field's boundary conditions); spectral coarsening keeps exactly the retained wavenumbers with the same physical amplitude. Filtering plus coarsening leaves constants unchanged, locations and domain are those of the target grid, and incompatible target grids are rejected.",
  ["inputs", "configurations"], "all fields, grids, coarsening factors and dimensions",
  "Tests use constant or tiny fields; conservation is a statement about every field and factor.",
  [B+"resize.py", B+"array_utils.py"],
  [("downsample_staggered_velocity, downsample_spectral, block reductions", B+"resize.py")],
  ["fields before and after resampling"])

p("C17", "Initial conditions are reproducible, divergence-free and of the requested size",
  "Generated initial velocities depend only on the random key and the parameters, are discretely divergence-free on their grid, have zero mean where filtered noise is used, live at the requested locations with the requested boundary conditions, and reach the requested maximum speed. Wrapping user functions as an initial velocity evaluates each component at its own sample coordinates and, when asked, corrects it only by a projection.",
  ["inputs", "configurations"], "all keys, grids, speeds, peak wavenumbers and user functions; staggered and collocated",
  "Tests draw a few keys on a few grids; every data set generated with the library relies on this for all keys and grids.",
  [B+"initial_conditions.py", B+"filter_utils.py", C+"initial_conditions.py", B+"validation_problems.py"],
  [("filtered_velocity_field, initial_velocity_field, wrap_velocities", B+"initial_conditions.py")],
  ["generated velocities"])

p("C18", "Repeated and trajectory runs equal running the step one at a time",
  "Repeating a step n times, or unrolling a trajectory, returns exactly the states obtained by calling the step by hand: the k-th saved state is the state after the stated number of inner steps (including or excluding the initial state as requested), for any step, state structure, lengths and post-processing, whether or not it is checkpointed, sliced or computed in a loop. Nothing is skipped, duplicated or reordered.",
  ["programs", "histories"], "all step functions, state structures, inner/outer step counts, and options",
  "Tests use a counter and a few lengths; an off-by-one in any option combination silently mislabels every data set.",
  [B+"funcutils.py", M+"model_builder.py"],
  [("repeated, trajectory, scan wrappers", B+"funcutils.py"), ("trajectory_from_step and decoded trajectories", M+"model_builder.py")],
  ["final states and saved frames"])

p("C19", "Compilation, batching and differentiation do not change results",
  "Compiling, vectorising over a batch, or running a solver inside a loop transformation returns the same values, locations, grid and boundary conditions as calling it directly on each input. Derivatives of solver outputs computed automatically are finite and agree with finite differences wherever the scheme is differentiable, including through implicit solves, and forward and reverse modes agree.",
  ["programs", "inputs"], "all solver components, states, batch sizes, and jit/vmap/grad/scan compositions",
  "Tests run most functions in a single mode; divergence between modes depends on data-dependent Python control flow, static metadata and custom solves.",
  [B+"equations.py", B+"pressure.py", B+"diffusion.py", B+"advection.py", B+"grids.py", S+"equations.py"],
  [("pytree registration and traceable solver code", B+"grids.py"), ("solvers", B+"pressure.py")],
  ["outputs and derivatives under each transformation"])

p("C20", "Subgrid models are dissipative, conservative and evaluated where stated",
  "The eddy viscosity of the subgrid model is non-negative, equals the stated constant times filter width squared times strain magnitude evaluated at the stress locations, and vanishes for uniform flow. The resulting acceleration is the divergence of the subgrid stress: it conserves momentum on periodic domains, never adds kinetic energy, and its implicit variant solves the corresponding implicit equation.",
  ["inputs", "configurations"], "all velocities, grids, spacings, constants, 2-D and 3-D",
  "Tests check shapes and a single smooth flow; dissipation and conservation are statements about every flow and anisotropic grid.",
  [B+"subgrid_models.py"],
  [("smagorinsky viscosity, evm_model, implicit variants", B+"subgrid_models.py")],
  ["viscosity and acceleration fields"])

p("C21", "Periodic learned layers are translation equivariant under every layout",
  "Convolution towers and periodic layers commute with periodic translation of their input, keep the spatial shape they promise and see exactly their receptive field, whether applied directly or through any tiled or space-to-batch layout, all of which give the same result. Patch, padding and grouping helpers place each value at the stated position and their inverses restore the input.",
  ["inputs", "configurations"], "all inputs, sizes, kernel sizes, dilations, strides/tile layouts, channel counts, 1-3 dimensions",
  "Tests compare a few layouts on fixed sizes; wrap-around and layout mistakes appear only at particular sizes, offsets and kernel parities.",
  [M+"layers.py", M+"layers_util.py", M+"tiling.py", M+"towers.py"],
  [("periodic padding and convolution", M+"layers.py"), ("tiled layouts", M+"tiling.py"), ("towers", M+"towers.py")],
  ["layer outputs for shifted and tiled inputs"])

p("C22", "Learned stencils satisfy their accuracy constraints for every network output",
  "Whatever the network produces, the interpolation and derivative stencils it parameterises satisfy their polynomial-accuracy constraints: learned interpolation reproduces constants, learned derivatives of order n annihilate lower-degree polynomials and are exact on degree n, and stencils are centred on the stated source and target locations. With zero correction they reduce to the baseline scheme.",
  ["inputs", "configurations"], "all parameter values and network outputs, stencil sizes, offsets, derivative orders, steps and dimensions",
  "Tests evaluate one random initialisation; the constraint is what makes learned solvers consistent for every parameter value reached in training.",
  [M+"layers.py", M+"layers_util.py", M+"interpolations.py"],
  [("polynomial accuracy constraints and nullspace parameterisation", M+"layers_util.py"), ("learned interpolation", M+"interpolations.py")],
  ["stencil coefficients and interpolated fields"])

p("C23", "Configured models compose exactly the physics they name",
  "A solver assembled from configuration (physics specification, equation, convection, diffusion, forcing, pressure, stepper, encoder, decoder) advances states exactly as the directly-called library routines with the same parameters. Encoders and decoders place data at the stated locations with the stated boundary conditions and invert each other where both exist, encoding a trajectory uses the frames it states, training losses and metrics equal their definitions, and a preprocessed stream yields every batch of its data once, in order, and then ends.",
  ["configurations", "inputs"], "all supported component choices, parameters, states and trajectory shapes",
  "Tests only check that a few configurations run with the right shapes.",
  [M+"equations.py", M+"model_builder.py", M+"encoders.py", M+"decoders.py", M+"forcings.py", M+"advections.py", M+"diffusions.py", M+"pressures.py", M+"time_integrators.py", M+"metrics.py", M+"train_utils.py", M+"physics_specifications.py", M+"viscosities.py"],
  [("module wrappers", M+"equations.py"), ("model builder", M+"model_builder.py"), ("metrics", M+"metrics.py"), ("train utilities", M+"train_utils.py")],
  ["outputs of assembled models against direct calls"])

p("C24", "Data utilities report what the trajectory contains",
  "Converting velocity trajectories to labelled data sets and back, reconstructing grids from their attributes, and deriving vorticity, energy, enstrophy, spectra and correlations give exactly the quantities defined by the samples and coordinates: the total of the (unnormalised) spectrum is the mean energy by Parseval, spectra live at the stated wavenumbers, every variable carries the offset of its samples, vorticity is the curl with the coordinate spacing, spatial and temporal correlations are labelled by displacement and lag, correlation is one for identical and scale-invariant. Averages, thresholds and summaries reduce exactly the named dimensions; normalisation, unit and axis choices do not leak between variables, models or times. Rendered images show each frame in order at the stated size and range.",
  ["inputs", "configurations"], "all trajectories, grids, domains, sample and time axes",
  "Tests check one or two small arrays; evaluation results in papers depend on these for every grid and field.",
  [D+"xarray_utils.py", D+"evaluation.py", D+"visualization.py"],
  [("construction and parsing of data sets, derived quantities", D+"xarray_utils.py"), ("evaluation statistics", D+"evaluation.py")],
  ["data sets and derived arrays"])

p("C25", "Array helpers slice, split, interpolate and assemble operators faithfully",
  "Splitting, slicing, concatenating, stacking and block-reducing arrays along any axis of nested structures place every element where stated and invert each other; one-dimensional interpolation returns the piecewise-linear value with the stated behaviour outside the data. Assembled Laplacian matrices, including those with walls, applied to a field equal the differential operator under those boundary conditions (homogeneous part), are symmetric and negative semi-definite with the correct null space.",
  ["inputs", "configurations"], "all array structures, axes, indices, sizes, steps, offsets and boundary types",
  "Tests exercise a few shapes; the helpers sit beneath every solver and data pipeline for arbitrary shapes.",
  [B+"array_utils.py"],
  [("slice/split/concat helpers, interp1d, laplacian matrices", B+"array_utils.py")],
  ["arrays returned"])

p("C26", "Operators commute with the symmetries of the grid",
  "Translating periodic inputs by whole cells, permuting the axes, reflecting an axis, or rescaling length and time units transforms the result of every differential operator, interpolation, advection, diffusion, pressure and full solver step in exactly the corresponding way. No axis, direction or unit is privileged.",
  ["inputs", "configurations"], "all fields, grids with different sizes and spacings per axis, 2-D and 3-D, all schemes and solvers",
  "Tests use isotropic grids and single orientations, where an axis mix-up, a sign slip or a hard-coded spacing is invisible.",
  [B+"finite_differences.py", B+"interpolation.py", B+"advection.py", B+"diffusion.py", B+"pressure.py", B+"equations.py", B+"subgrid_models.py", B+"forcings.py"],
  [("per-axis loops in operators", B+"finite_differences.py"), ("solver steps", B+"equations.py")],
  ["results on transformed inputs"])

p("C27", "Forcings apply the stated body force at each component's location",
  "Every forcing returns, at each velocity component's own sample locations, exactly the force its formula states for the given scale, wavenumber and grid coordinates; composed forcings add up, linear and filtered-linear forcing act only on the stated wavenumber band of the velocity, and forcing does not depend on anything but its inputs. Forcings that are meant to be divergence-free, mean-free or divide by a spectral norm have those properties.",
  ["inputs", "configurations"], "all velocities, grids, domains, scales, wavenumbers, offsets and compositions",
  "Tests only check shapes and that values are finite; the phase, axis, sign and offset of the force are never compared with the formula.",
  [B+"forcings.py", S+"forcings.py", B+"filter_utils.py", B+"validation_problems.py"],
  [("forcing constructors", B+"forcings.py"), ("spectral forcings", S+"forcings.py"), ("band filters", B+"filter_utils.py")],
  ["forces returned"])

p("C28", "Single precision computes the same to within rounding",
  "With JAX's default 32-bit types every operator, interpolation, advection, diffusion, pressure solve, spectral step, forcing, initial condition and full solver step returns 32-bit results with the same locations, grids and boundary conditions as in double precision, and with values and derivatives that agree with double precision up to rounding errors and the conditioning of the operation, at any speed. Invariants hold to rounding as well: projecting a field that is already divergence-free, once or repeatedly, leaves it finite and unchanged, null spaces of singular solves are recognised at any scale, means and momentum are kept, and uniform flow stays uniform.",
  ["inputs", "configurations"], "all components, solvers and wall configurations, speeds and operator scales over many orders of magnitude, repeated application, direct, compiled and batched execution",
  "Tests compare with loose absolute tolerances on a few smooth fields of order one, or in double precision; thresholds and conditioning that only matter at 1e-7 stay invisible.",
  [B+"pressure.py", B+"fast_diagonalization.py", B+"diffusion.py", C+"pressure.py", B+"initial_conditions.py", B+"array_utils.py", S+"utils.py", B+"subgrid_models.py"],
  [("conjugate gradient pressure solves", B+"pressure.py"), ("pseudoinverse cutoff", B+"fast_diagonalization.py"), ("collocated pressure", C+"pressure.py")],
  ["values, data types and derivatives in both precisions"])

p("C29", "Calls never change their inputs and depend only on the values given",
  "No operation modifies what it is given: arrays, fields, grids, boundary conditions, states, parameters, sequences, attribute dictionaries and data sets hold the same values bit for bit after a call as before, whether the call is executed directly, compiled or repeated, and earlier results are not changed by later calls. Results are a function of the values given: numpy arrays and JAX arrays with equal values, read-only, in any memory order, reversed or strided, give equal results with the same data types and metadata; repeating a call, calling other components in between, or using an equal object built a second time gives the same result; and objects do not follow later changes of the sequences they were made from.",
  ["inputs", "histories"], "all operators, solvers, learned layers and data utilities; all array containers and memory layouts; all sequences of calls",
  "Tests use each input once and never look at it again, use one kind of container, and call each function once with each configuration; aliasing, hidden caches and layout assumptions stay invisible.",
  [B+"grids.py", B+"boundaries.py", B+"array_utils.py", B+"resize.py", B+"fast_diagonalization.py", B+"funcutils.py", B+"forcings.py", S+"utils.py", D+"xarray_utils.py", D+"evaluation.py", M+"train_utils.py", M+"encoders.py", M+"layers_util.py"],
  [("fields wrap arrays of any kind", B+"grids.py:GridArray"), ("grids copy their specification", B+"grids.py:Grid"), ("data sets built from and reduced to labelled arrays", D+"xarray_utils.py"), ("operators assembled from matrices", B+"fast_diagonalization.py")],
  ["inputs before and after calls", "results under different containers and histories"])

if __name__ == "__main__":
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
        print(json.dumps(q))
