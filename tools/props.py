CPP = "src/vmecpp/cpp/"
LV = ("Bounded symbolic execution: within the bounds written in the harness header every value is covered by the solver's verdict; "
      "sizes outside the bounds are not. Trusts clang's bitcode, the symx executor and z3; doubles are read as reals unless the entry says IEEE.")
P = []
NA = {}
NOTES = "See DESIGN.md. Every check recompiles the code it executes from /repo's working tree."


def prop(id, title, statement, for_all, tests, files, mech, over=("inputs",), level=LV, technique=None):
    d = dict(id=id, title=title, statement=statement, for_all=for_all, tests=tests, files=files, mech=mech, over=list(over), level=level)
    if technique:
        d["technique"] = technique
    P.append(d)


prop("P01", "Parallel work partition covers every surface and grid point exactly once",
     "For every number of flux surfaces and every admissible number of threads, the radial ranges given to the threads are non-empty, disjoint and together cover all surfaces to be evolved, in order; the neighbour (halo) and half-grid ranges extend them by exactly one surface where one exists. The same holds for the split of the tangential grid points in the free-boundary solver.",
     "every surface count up to 400, up to 64 threads, every thread index, fixed and free boundary; 1..4096 grid points",
     "tests use a few fixed (surfaces, threads) pairs on one machine's thread count",
     [CPP + "vmecpp/vmec/radial_partitioning/radial_partitioning.cc", CPP + "vmecpp/free_boundary/tangential_partitioning/tangential_partitioning.cc"],
     [("radial split", "RadialPartitioning::adjustRadialPartitioning"), ("tangential split", "TangentialPartitioning ctor")], over=("inputs", "configurations"))
prop("P02", "Tridiagonal radial preconditioner solves its linear system, serial or parallel",
     "The serial radial solve and the multi-threaded radial solve both return the solution of the tridiagonal system they are given, for every right-hand side and every first-surface index per mode, and the answer does not depend on the number of threads or on how they interleave. Entries inside the first active surface come back as zero.",
     "every diagonally dominant system, right-hand side, first active surface and thread schedule within the bounds",
     "tests solve a few random systems with one schedule",
     [CPP + "vmecpp/common/util/util.cc"], [("serial solve", "TridiagonalSolveSerial"), ("parallel solve", "TridiagonalSolveOpenMP")], over=("inputs", "schedules"))
prop("P03", "Typed JSON reads return the exact value or an error, never a changed value",
     "Reading a named boolean, integer, number, string, integer array or number array from a JSON document returns exactly the stored value when it has the requested type and is representable, reports 'not given' when the key is absent, and reports an error for every other type or an integer that does not fit.",
     "every JSON value type, every 64-bit integer, every IEEE double, arrays up to three elements of mixed type",
     "tests read one value per type",
     [CPP + "util/json_io/json_io.cc"], [("scalar and array readers", "json_io::JsonRead*")])
prop("P04", "Boundary coefficients land on their own Fourier mode, and nowhere else",
     "When a boundary or axis description is read from JSON, each coefficient is stored at the position of its own mode numbers; entries whose mode numbers lie outside the requested resolution are ignored, coefficients not mentioned are zero, later entries for a mode win, and no input document makes the reader touch memory outside its arrays.",
     "every list of entries with any 32-bit mode numbers and any value, any missing field, any resolution within the bounds, symmetric and asymmetric",
     "tests read well-formed files with in-range modes only",
     [CPP + "vmecpp/common/vmec_indata/boundary_from_json.cc", CPP + "vmecpp/common/vmec_indata/vmec_indata.cc"],
     [("entry list", "BoundaryCoefficient::FromJson"), ("dense array", "BoundaryFromJson"), ("input file", "VmecINDATA::FromJson")])
prop("P05", "Run input is accepted exactly when it obeys the documented rules",
     "A run input is accepted only if its resolution, multigrid steps, tolerances, physics switches and array shapes satisfy the documented constraints, and every input that satisfies them is accepted with each field keeping the value given in the file. Incomplete or inconsistent inputs are refused with an error and never read outside their arrays.",
     "every combination of scalar values and array lengths within the bounds, present or missing asymmetric arrays",
     "tests check single violations of a few rules",
     [CPP + "vmecpp/common/vmec_indata/vmec_indata.cc"], [("rules", "IsConsistent"), ("reader", "VmecINDATA::FromJson")])
prop("P06", "Changing the Fourier resolution of an input keeps every common coefficient",
     "Changing the poloidal and toroidal resolution of a run input keeps every axis and boundary coefficient whose mode exists in both resolutions, sets newly added modes to zero and drops only modes outside the new range, for symmetric and asymmetric inputs.",
     "every old and new resolution within the bounds, every coefficient value",
     "tests grow one sample input by one mode",
     [CPP + "vmecpp/common/vmec_indata/vmec_indata.cc"], [("resize", "VmecINDATA::SetMpolNtor")])
prop("P07", "Writing a run input and reading it back gives the same input",
     "A run input written to JSON or to HDF5 and read back is equal in every field, for symmetric and asymmetric configurations and all array lengths.",
     "every value of every field, array lengths within the bounds, both symmetry settings",
     "tests round-trip a few files that ship with the repository, all stellarator-symmetric",
     [CPP + "vmecpp/common/vmec_indata/vmec_indata.cc", CPP + "util/hdf5_io/hdf5_io.cc"],
     [("JSON", "VmecINDATA::ToJson / FromJson"), ("HDF5", "VmecINDATA::WriteTo / LoadInto")])

KD = CPP + "vmecpp/vmec/ideal_mhd_model/"
prop("P08", "Grid sizes satisfy the Nyquist limits and integrate resolved functions exactly",
     "For every requested resolution the real-space grid is enlarged, never reduced, until it resolves all Fourier modes of the run; all derived counts (points per surface, modes per surface, Nyquist modes, geometry caps) follow from it, and the integration weights sum to one. The weighted sum over the grid of any function the grid resolves equals its exact surface average, with and without stellarator symmetry.",
     "every resolution request and every function sampled on the grid within the bounds",
     "tests use a handful of resolutions and compare output tables",
     [CPP + "vmecpp/common/sizes/sizes.cc"], [("derived sizes", "Sizes::computeDerivedSizes")], over=("inputs", "configurations"))
prop("P09", "Internal and external Fourier representations describe the same function",
     "Converting coefficients of cos(m theta - n zeta) or sin(m theta - n zeta) to the internal product basis leaves the function unchanged for every angle, and converting back returns the original coefficients, in both memory layouts. The precomputed tables evaluate a series and its poloidal and toroidal derivatives exactly, projecting back onto a mode returns that mode's coefficient, and mode numbers, mode indices and mode counts agree.",
     "every set of coefficients and every angle within the resolution bounds",
     "tests check single modes and random coefficients at fixed resolutions",
     [CPP + "vmecpp/common/fourier_basis/fourier_basis.cc", CPP + "vmecpp/common/fourier_basis/fourier_basis.h"],
     [("tables", "FourierBasis::computeFourierBasis"), ("conversion", "cos_to_cc_ss, sin_to_sc_cs, cc_ss_to_cos, sc_cs_to_sin"), ("mode numbers", "computeConversionIndices, mnIdx")], over=("inputs", "configurations"))
prop("P10", "Flux-surface geometry equals its Fourier series at every grid point",
     "For arbitrary coefficients, the real-space R, Z and their poloidal and toroidal derivatives, the derivatives of lambda, and the spectral-condensation series equal the Fourier series (split into even and odd poloidal modes) at every point of every surface a thread owns, for axisymmetric and three-dimensional, symmetric and asymmetric runs. Only the two lowest poloidal modes act on the axis, nothing of an earlier evaluation survives, and every thread layout gives the same values.",
     "every set of Fourier coefficients within the resolution bounds, every thread of the layouts listed",
     "tests compare one or two equilibria with stored reference arrays",
     [CPP + "vmecpp/vmec/ideal_mhd_model/ideal_mhd_model.cc", CPP + "vmecpp/vmec/ideal_mhd_model/dft_toroidal.cc"],
     [("dispatch", "IdealMhdModel::geometryFromFourier"), ("series", "FourierToReal3DSymmFastPoloidal, FourierToReal3DAsymFastPoloidal, dft_FourierToReal_2d_*"), ("reflection", "symrzl")], over=("inputs", "configurations"))
prop("P11", "Fourier forces are the exact projection of the real-space forces",
     "For arbitrary real-space forces, each Fourier force coefficient is the surface average of the force densities against that basis function and its derivatives, for axisymmetric and three-dimensional, symmetric and asymmetric runs, independent of the thread layout. On the axis only m=0 is driven, lambda is not driven on the axis, and the boundary is driven only once the vacuum field of a free-boundary run is on; every other coefficient comes back zero.",
     "every real-space force field within the resolution bounds, every thread of the layouts listed, every vacuum state",
     "tests compare one or two equilibria with stored reference arrays",
     [CPP + "vmecpp/vmec/ideal_mhd_model/ideal_mhd_model.cc", CPP + "vmecpp/vmec/ideal_mhd_model/dft_toroidal.cc"],
     [("dispatch", "IdealMhdModel::forcesToFourier"), ("projection", "ForcesToFourier3DSymmFastPoloidal, ForcesToFourier3DAsymFastPoloidal, dft_ForcesToFourier_2d_*"), ("folding", "symforce")], over=("inputs", "configurations"))
prop("P12", "The FFT path of the transforms gives the same result as the plain sums",
     "Every generated FFT kernel, for each length and batch size the library offers, computes the discrete Fourier transform (inverse: cosine and sine synthesis from a half spectrum; forward: cosine and sine projection with the toroidal normalisation) of every slot from that slot's input only. With the kernels in use, the geometry and the Fourier forces equal the same Fourier series and projections as without them, on the axis, inside and at the boundary, for symmetric and asymmetric runs, with and without the vacuum field; where no kernel exists for the resolution the plain sums are used.",
     "every input of every kernel; every set of coefficients and forces at the kernel resolution listed",
     "tests compare the two paths for one random input at a few resolutions",
     [CPP + "vmecpp/vmec/ideal_mhd_model/fft_toroidal.cc", CPP + "vmecpp/vmec/ideal_mhd_model/ideal_mhd_model.cc", CPP + "third_party/fftx_codelets/lib_fftx_iprdftbat_cpu_srcs/fftx_iprdftbat_cpu_libentry.cpp", CPP + "third_party/fftx_codelets/lib_fftx_prdftbat_cpu_srcs/fftx_prdftbat_cpu_libentry.cpp"],
     [("kernels", "fftx_iprdftbat_*, fftx_prdftbat_*"), ("kernel choice", "ToroidalFftPlans, fftx_iprdftbat_cpu_Tuple, fftx_prdftbat_cpu_Tuple"), ("transforms", "FourierToReal3DSymmFastPoloidalFft, ForcesToFourier3DSymmFastPoloidalFft")], over=("inputs", "configurations"))
prop("P13", "Half-grid Jacobian and metric elements match their geometric definition",
     "The Jacobian, the interpolated geometry and the metric elements on the half grid are the second-order half-grid averages and differences of R and Z and of their angular derivatives, with the square-root-of-s factor on odd poloidal harmonics, at every surface and grid point, in two and three dimensions, and the value at a point does not depend on how the surfaces are split among threads. The solver rejects a state as unusable exactly when its Jacobian takes both signs within the plasma.",
     "every geometry and every radial grid value within the bounds, all splits of the radius over one or two threads",
     "tests compare the final equilibrium with stored references and never look at an intermediate state",
     [KD + "jacobian_kernel.h", KD + "metric_kernel.h", KD + "ideal_mhd_model.cc"], [("Jacobian", "ComputeHalfGridJacobian"), ("metric", "ComputeMetricElements"), ("unusable geometry", "IdealMhdModel::computeJacobian")], over=("inputs", "configurations"))
prop("P14", "Magnetic field components and magnetic pressure follow from geometry and fluxes",
     "The contravariant magnetic field is the half-grid average of the flux and stream-function derivatives divided by the Jacobian, the covariant components follow by lowering the index with the metric, and the magnetic pressure is half the squared field, at every grid point in two and three dimensions and for every split over threads.",
     "every value of the inputs, all splits over one or two threads",
     "tests compare final equilibria only",
     [KD + "bcontra_kernel.h", KD + "bco_kernel.h", KD + "pressure_kernel.h"], [("B^u, B^v", "ComputeBsupContra"), ("B_u, B_v", "ComputeBCo"), ("pressure", "ComputeMagneticPressure")], over=("inputs", "configurations"))
prop("P15", "Forces are the exact variation of the discretised energy",
     "The real-space MHD force on R and Z is the derivative of the discretised magnetic plus thermal energy with respect to the geometry, the force on the stream function is the blended radial average of the covariant field, and the spectral-condensation force is the constraint residual times the poloidal tangent; axis and boundary surfaces get one-sided contributions only, and the values do not depend on the split over threads.",
     "every geometry, field, pressure and radial grid value within the bounds, fixed and free boundary, two and three dimensions, all splits over one or two threads",
     "tests compare final equilibria; a force error that vanishes for their inputs goes unseen",
     [KD + "mhdforce_kernel.h", KD + "lambda_force_kernel.h", KD + "constraint_force_kernel.h"],
     [("MHD force", "ComputeMHDForceDensity"), ("lambda force", "ComputeHybridLambdaForce"), ("constraint", "ComputeEffectiveConstraintForce, AddConstraintForces")], over=("inputs", "configurations"))
prop("P16", "Volumes, pressure and energies count every surface exactly once",
     "The differential volume of each surface is the surface average of the Jacobian's magnitude, the pressure follows from mass and volume by the adiabatic law, and plasma volume, thermal, magnetic and total energy are the radial sums of their densities, with every half-grid surface counted exactly once, whatever the number of threads and their interleaving. The total pressure at each point is magnetic plus kinetic pressure.",
     "every Jacobian, field, mass profile, adiabatic index and sign of the Jacobian within the bounds; every split over one to three threads",
     "tests compare one or two final equilibria with stored values",
     [KD + "ideal_mhd_model.cc"], [("volume", "updateDifferentialVolume, computeInitialVolume, updateVolume"), ("energies", "pressureAndEnergies")], over=("inputs", "schedules", "configurations"))
prop("P17", "Prescribed current or iota is honoured and flux profiles stay consistent",
     "The contravariant field is the half-grid average of the lambda derivatives plus the fluxes, divided by the Jacobian; with a prescribed current profile the poloidal flux is chosen so that the surface-averaged covariant field equals that current on every surface, with a prescribed iota profile that profile is kept, and poloidal flux is always iota times toroidal flux, extended consistently to the full grid. Enclosed currents, current densities, pressure gradient and the averaged radial force balance are the surface averages and radial differences of the covariant field, pressure and fluxes.",
     "every lambda, metric, flux, current and iota profile within the bounds, each thread of the splits listed",
     "tests compare one or two final equilibria with stored values",
     [KD + "ideal_mhd_model.cc"], [("field", "computeBContra"), ("balance", "radialForceBalance")], over=("inputs", "configurations"))
prop("P18", "Convergence residuals do not depend on how surfaces are split over threads",
     "The force residuals that decide convergence are the sums of squares of all Fourier forces, every surface and mode counted exactly once, divided by norms built from the energy density, the metric and the field; boundary forces enter only when requested, lambda forces always. The preconditioned residuals are normalised by the geometry without its (0,0) mode, and all of them are the same for every number of threads and every interleaving.",
     "every force, geometry, metric and energy value within the bounds; one to three threads",
     "tests look at the residuals of a converged run on one machine",
     [KD + "ideal_mhd_model.cc", CPP + "vmecpp/vmec/fourier_forces/fourier_forces.cc"], [("norms", "computeForceNorms, FourierCoeffs::rzNorm"), ("residuals", "FourierForces::residuals, evalFResInvar, evalFResPrecd")], over=("inputs", "schedules", "configurations"))
prop("P19", "Preconditioners are the stated inverse operators on every mode and surface",
     "The lambda preconditioner is the inverse of the diagonal stiffness of its mode (zero on the axis and for the constant mode); the radial preconditioner's matrix elements are the surface-averaged second derivatives of the energy with respect to neighbouring surfaces, assembled per mode into a tridiagonal system with its axis coupling and edge pedestal; applying it solves that system for every mode, with m=1 constraint pairs rescaled and m>0 forces on the axis zero. The result does not depend on the number of threads or their interleaving.",
     "every metric average, matrix element and force within the bounds, every vacuum state, one to three threads",
     "tests compare one or two final equilibria; a wrong preconditioner still converges, only elsewhere or slower",
     [KD + "ideal_mhd_model.cc"], [("lambda", "updateLambdaPreconditioner, applyLambdaPreconditioner"), ("matrix", "updateRadialPreconditioner, computePreconditioningMatrix, assembleRZPreconditioner"), ("solve", "applyM1Preconditioner, applyRZPreconditioner")], over=("inputs", "schedules", "configurations"))
prop("P20", "Constraint force touches only its own modes; vacuum pressure only the edge",
     "The spectral-condensation force keeps exactly the poloidal modes from 1 to mpol-2 of its source, each weighted by its own factor and by the multiplier of its surface, and vanishes on the axis; multipliers follow from the preconditioner and the poloidal derivatives on each surface, and the boundary values extended inward are its reference. The vacuum pressure acts on the plasma boundary only, and only once the vacuum field of a free-boundary run is on.",
     "every geometry, force and multiplier within the bounds, every vacuum state, each thread of the splits listed",
     "tests compare one or two final equilibria with stored values",
     [KD + "ideal_mhd_model.cc", KD + "constraint_force_kernel.h"], [("multiplier", "constraintForceMultiplier"), ("filter", "deAliasConstraintForce"), ("reference", "rzConIntoVolume"), ("edge", "assembleTotalForces")], over=("inputs", "configurations"))
prop("P21", "Solver state keeps each Fourier coefficient at its mode, surface and symmetry",
     "Every operation on the Fourier state acts on exactly the modes and surfaces it names and leaves all others alone: parity scaling, the reversible m=1 constraint and its force cut-off, the geometry cut-off that spares lambda, extrapolation to the axis, norms, and copies that own their values. A new run starts from the interpolation between axis and boundary (linear in s for m=0, sqrt(s)^m otherwise), a restarted run from the given solution with its boundary and lambda scaling, and the spectral width is the mode-weighted ratio of each surface, volume-averaged with every surface counted once.",
     "every coefficient value within the bounds, symmetric and asymmetric, each thread of the splits listed",
     "tests compare one or two equilibria with stored values",
     [CPP + "vmecpp/vmec/fourier_coefficients/fourier_coefficients.cc", CPP + "vmecpp/vmec/fourier_geometry/fourier_geometry.cc", CPP + "vmecpp/vmec/fourier_forces/fourier_forces.cc", CPP + "vmecpp/vmec/fourier_velocity/fourier_velocity.cc"],
     [("coefficients", "FourierCoeffs::decomposeInto, m1Constraint, maskGeometryAbove, rzNorm"), ("start", "FourierGeometry::interpFromBoundaryAndAxis, InitFromState, extrapolateTowardsAxis"), ("spectral width", "ComputeSpectralWidth, AccumulateVolumeAveragedSpectralWidth")], over=("inputs", "configurations", "schedules"))
prop("P22", "Radial profiles have the values their names and coefficients define",
     "Pressure, rotational transform and enclosed current evaluate, at every radial position, to the function named in the run input with the given coefficients or knots: power series, rational, two-power, Gaussian, Lorentz, arctangent, pedestal, line segments, cubic and Akima splines. A current given as a derivative is integrated from the axis, and the profiles on the solver's grids follow from the toroidal-flux function, the pressure scale and pedestal, the coordinate stretch and the prescribed total flux and current.",
     "every coefficient, knot value and position within the bounds",
     "tests evaluate each profile at a few positions for one set of coefficients, several not at all",
     [CPP + "vmecpp/vmec/radial_profiles/radial_profiles.cc", CPP + "vmecpp/vmec/profile_parameterization_data/profile_parameterization_data.cc"],
     [("shapes", "RadialProfiles::evalProfileFunction and the eval* functions"), ("names", "findParameterization"), ("grids", "evalRadialProfiles, computeMagneticFluxes, torflux")])
prop("P23", "The boundary the solver uses is the boundary that was given",
     "The boundary and axis taken over from the run input describe the same curves as the input series, up to the poloidal-angle shift that makes the angle unique (asymmetric inputs) and the reversal of the poloidal angle applied exactly when its sense does not match the required sign of the Jacobian; m=1 coefficients come in constrained form. When the given axis does not fit, its replacement is, in every toroidal plane, the point of the search grid with the largest minimum Jacobian along the whole boundary curve, or the centre of the curve.",
     "every boundary and axis coefficient within the bounds, both signs of the Jacobian",
     "tests convert a few example boundaries, nearly all symmetric",
     [CPP + "vmecpp/vmec/boundaries/boundaries.cc", CPP + "vmecpp/vmec/boundaries/guess_magnetic_axis.cc"], [("conversion", "Boundaries::setupFromIndata, parseToInternalArrays"), ("sense", "checkSignOfJacobian, flipTheta"), ("constraint", "ensureM1Constrained"), ("new axis", "RecomputeMagneticAxisToFixJacobianSign")])
prop("P24", "A run reports success exactly when its last state met the tolerance",
     "The solver advances the state by the damped momentum step with the damping averaged over the last ten steps, stores the state when the residual has improved, and after an unusable geometry or growing residuals goes back to the stored state with zero velocity and a smaller time step (a first state that is unusable gets one new axis guess). It reports success, and computes outputs from exactly that state, only when the three residuals of the last stage are within tolerance before the iteration limit; an interrupt, a failed evaluation or the limit give an error unless outputs were requested anyway. The refined start of the next stage interpolates the coarser state, and a restart state of another symmetry or resolution is refused.",
     "every sequence of answers of the force evaluation within the bounds",
     "tests follow the few histories of the example equilibria",
     [CPP + "vmecpp/vmec/vmec/vmec.cc", CPP + "vmecpp/common/flow_control/flow_control.cc"],
     [("run", "Vmec::run, InitializeRadial"), ("loop", "SolveEquilibrium, SolveEquilibriumLoop, Evolve"), ("restart", "RestartIteration"), ("step", "PerformTimeStep"), ("refinement", "InterpolateToNextMultigridStep")], over=("inputs", "histories", "schedules"))
prop("P25", "The coil field on the plasma boundary is that of the given currents",
     "The field on the grid is the sum over all circuits of current times response, from a table or a file alike; a table or file that is incomplete, of another shape or with another number of circuits than currents is refused and leaves no field available, and files are closed again. At a boundary point the field is interpolated bilinearly in its own toroidal plane (taken at the nearest grid edge outside of the grid), a fixed field given for the boundary is used as is, and the field of a net toroidal current along the magnetic axis is that of the closed polygon through the axis points of all field periods. Its tangential components are B.dx/dtheta and B.dx/dphi and its normal component is that along the normal of the surface, whatever the number of threads.",
     "every current, response, extent and boundary point within the bounds, every missing or misshaped variable and every failing library call",
     "tests load one file and compare one boundary",
     [CPP + "vmecpp/free_boundary/mgrid_provider/mgrid_provider.cc", CPP + "vmecpp/free_boundary/external_magnetic_field/external_magnetic_field.cc", CPP + "vmecpp/free_boundary/only_coils/only_coils.cc", CPP + "vmecpp/free_boundary/surface_geometry/surface_geometry.cc"],
     [("tables", "MGridProvider::LoadFile, LoadFields, SetFixedMagneticField"), ("interpolation", "MGridProvider::interpolate"), ("components", "ExternalMagneticField::update"), ("coils only", "OnlyCoils::update")], over=("inputs", "fault_sequences"))
prop("P26", "The vacuum solver makes the field tangential to the plasma boundary",
     "The vacuum solver evaluates the boundary shape and its first and second derivatives from the Fourier coefficients at every point of the full grid, forms the Green's function integrals with the distance between surface points and the surface normal (over all field periods, with the local approximation removed and its analytic value added back), and projects them on the sine (and, without symmetry, cosine) modes into the linear system that is solved. The field it returns has the tangential components of the coils plus the gradient of the solved potential, no component along the surface normal, and its pressure is half its square; the matrix is only rebuilt in full updates, and nothing depends on the number of threads.",
     "every coefficient, kernel, source, potential and external field within the bounds",
     "tests compare one boundary with reference data",
     [CPP + "vmecpp/free_boundary/nestor/nestor.cc", CPP + "vmecpp/free_boundary/laplace_solver/laplace_solver.cc", CPP + "vmecpp/free_boundary/singular_integrals/singular_integrals.cc", CPP + "vmecpp/free_boundary/regularized_integrals/regularized_integrals.cc", CPP + "vmecpp/free_boundary/surface_geometry/surface_geometry.cc"],
     [("geometry", "SurfaceGeometry::update"), ("kernel", "RegularizedIntegrals::update, SingularIntegrals::update"), ("system", "LaplaceSolver"), ("field", "Nestor::update")])
prop("P28", "netCDF reads return the stored values or an error",
     "Reading a named logical, integer, number, character, text or one- to three-dimensional numeric array from a netCDF file returns exactly the stored values in the stored order and shape (text without padding), whatever numeric type the file uses for them, and returns an error when the variable is missing, has another rank, holds text instead of numbers or the reverse, or when the library reports a failure; it never writes outside its buffers.",
     "every external type, rank, length and content within the bounds, and a failure of any library call",
     "tests read one file in which every variable has the expected type",
     [CPP + "util/netcdf_io/netcdf_io.cc"], [("readers", "netcdf_io::NetcdfRead*")], over=("inputs", "fault_sequences"))
prop("P27", "HDF5 writes and reads give back the same values, shapes and texts",
     "Every number, integer, logical, text, list of texts, vector, row-major matrix and shaped array written to an HDF5 file and read back has the same value, length, shape and element order, including empty ones, and whatever the destination held before is replaced.",
     "every value, lengths and shapes within the bounds",
     "no test touches this module directly",
     [CPP + "util/hdf5_io/hdf5_io.cc", CPP + "util/hdf5_io/hdf5_io.h"], [("write", "hdf5_io::WriteH5Dataset"), ("read", "hdf5_io::ReadH5Dataset, GetRank, GetExtent")])
prop("P29", "Whole-file reads and writes are exact or report failure",
     "Reading a file returns exactly its bytes, or an error when it is missing or unreadable; writing a file either leaves exactly the given bytes on disk and reports success, or reports an error, also when the disk is full or flushing or closing fails; a refused write leaves an existing file untouched.",
     "every contents within the bounds, every amount of free disk space, partial transfers, failing open, flush or close",
     "tests read and write two small files on a healthy disk",
     [CPP + "util/file_io/file_io.cc"], [("read", "file_io::ReadFile"), ("write", "file_io::WriteFile")], over=("inputs", "fault_sequences"))
prop("P30", "The iteration log shows the run's own numbers, and silence means silence",
     "In the table format every logged iteration is one row whose columns are, in order, the iteration number, the three force residuals, the three preconditioned residuals, the time step, the axis position, the energy, beta, the spectral width and, for free boundary, the vacuum-pressure mismatch; the summary reports CONVERGED exactly when the run converged and shows each quantity under its own name; progress is always between 0 and 100 percent, a finished stage shows as complete, and bar and percentage agree; silent mode prints nothing.",
     "every value, stage count and mode within the bounds",
     "no test covers the logger",
     [CPP + "vmecpp/vmec/iteration_logger/iteration_logger.cc"], [("rows", "LogIteration, PrintLegacyRow"), ("summary", "EndRun, PrintSummaryTable"), ("progress", "ComputeProgress, FormatBar")])
prop("P31", "Tolerance comparison accepts exactly the values within tolerance",
     "The comparison that accepts or rejects computed results says 'close' exactly when the difference is at most the tolerance times one plus the magnitude of the expected value; NaN matches only NaN; infinities match only themselves; vectors match exactly when lengths agree and every pair of elements matches.",
     "every pair of values and every tolerance, special values included; vectors up to three elements",
     "the tests of the comparison try four number pairs",
     [CPP + "util/testing/numerical_comparison_lib.cc"], [("scalars", "testing::IsCloseRelAbs"), ("vectors", "testing::IsVectorCloseRelAbs")])
PY = "src/vmecpp/"
prop("P39", "Saved run outputs load back as they were saved",
  "Saving the outputs of a run to an HDF5 file and loading that file gives back every stored number, text, vector and table with the same shape, for every combination of radial resolution, mode count and symmetry. Files in the older layout (previous names, one row per surface, half-grid tables without the axis entry) load into the current layout with every value at its own mode and surface. The iteration histories and the mean of B squared are not stored.",
  "every content of the outputs; every number of surfaces relative to the number of modes; symmetric and asymmetric; fixed and free boundary",
  "the tests write one solution and read it back; shapes that coincide (as many surfaces as modes) and the older layout need their own files",
  [CPP + "vmecpp/vmec/output_quantities/output_quantities.cc", CPP + "util/hdf5_io/hdf5_io.cc"],
  [("outputs", "WOutFileContents::WriteTo/LoadInto, OutputQuantities::Save/Load")])
OQ = CPP + "vmecpp/vmec/output_quantities/output_quantities.cc"
prop("P40", "Published fields are those of the converged state, however many threads ran",
     "Every quantity reported after a run is the solver's value at that surface, grid point and mode, independent of how surfaces were split among threads; the cylindrical field components, the radial covariant component and the toroidal flux follow from the geometry and the flux derivative, and the toroidal covariant field averages to the poloidal current on every surface.",
     "every state within the bounds, every split, symmetric and asymmetric, fixed and free boundary, either sign of the Jacobian",
     "the output tests need compiled reference runs and compare a few solutions",
     [OQ], [("gather", "GatherDataFromThreads"), ("fields", "MeshBledingBSubZeta, FixupPoloidalCurrent, RecomputeToroidalFlux, ComputeRemainingMetric, BCylindricalComponents, ComputeBSubSOnHalfGrid")])
prop("P41", "Reported currents and force balance follow from the field",
     "The covariant field used for the current density is exactly its Fourier series truncated at the requested resolution, and its angular derivatives are the derivatives of that series, also without symmetry; the current density, its parallel and perpendicular parts, the flux-surface averages and the force residual are those of Ampere's law and force balance for that field.",
     "every field within the bounds, symmetric and asymmetric, either sign of the Jacobian",
     "the output tests need compiled reference runs and compare a few solutions",
     [OQ], [("filter", "DecomposeCovariantBBySymmetry, LowPassFilterCovariantB"), ("current", "ComputeJxBOutputFileContents, ComputeIntermediateMercierQuantities, ComputeMercierStability")])
prop("P42", "Global figures of merit are those of the equilibrium",
     "The printed table of radial profiles (fluxes, currents, pressure and their derivatives, force balance, beta) and the global figures (volume, areas, radii and aspect ratio, extent of the boundary and waist in each symmetry plane, enclosed fluxes, volume-integrated energies, betas, total current, axis shape) are the integrals, averages and extents of the converged state they are defined as, with or without stellarator symmetry and for either handedness.",
     "every state within the bounds",
     "the output tests need compiled reference runs and compare a few solutions",
     [OQ], [("table", "ComputeIntermediateThreed1FirstTableQuantities, ComputeThreed1FirstTable"), ("global", "ComputeThreed1GeometricMagneticQuantities, ComputeThreed1Volumetrics, ComputeThreed1AxisGeometry, ComputeThreed1Betas")])
prop("P43", "The output file's tables represent the computed equilibrium",
     "The Fourier series formed from the geometry tables of the output file is the R, Z and lambda the solver holds on every surface, the series formed from the field tables gives back the Jacobian, |B| and every component of B at each grid point, and the current tables obey Ampere's law for those components, with or without stellarator symmetry; profiles and scalars are copied to their documented place, radial offset, padding, unit and sign, and the status flag is 0 exactly for a run that ended normally.",
     "every state within the bounds",
     "the output tests need compiled reference runs and compare a few solutions",
     [OQ], [("wout", "ComputeWOutFileContents")])
prop("P32", "Sparse and dense Fourier coefficient forms carry the same coefficients",
     "Converting a dense table of boundary coefficients to the sparse list form used in JSON files keeps every non-zero coefficient (special values included) once, with its own mode numbers and value, and converting back gives the same table; a sparse list is placed coefficient by coefficient at its mode with zeros elsewhere, and a list naming a mode outside the resolution is refused, never dropped or misplaced.",
     "every coefficient value and every mode number within the bounds",
     "the doctests convert one small table each way",
     [PY + "_util.py"], [("sparse", "dense_to_sparse_coefficients"), ("dense", "sparse_to_dense_coefficients, sparse_to_dense_coefficients_implicit")])
prop("P33", "Padding keeps every value and never cuts silently",
     "Padding a profile or axis array to a target length keeps all its values in front and fills the rest with the given value; an array longer than the target is refused by the strict form and left unchanged by the lenient form.",
     "every value and every pair of lengths within the bounds",
     "no test covers the padding helpers",
     [PY + "_util.py"], [("padding", "pad_to_target, right_pad")])
prop("P34", "The INDATA namelist written for VMEC2000 carries the whole VMEC++ input",
     "Converting a VMEC++ JSON input to a VMEC2000 INDATA namelist writes every quantity that both codes know (resolution, multigrid steps, profiles, free-boundary parameters, magnetic axis under its INDATA names, boundary coefficients indexed by toroidal then poloidal mode number) exactly once and with exactly its value, quoted texts included, and writes nothing for absent, null or empty entries.",
     "every value of every entry, every single absent entry within the bounds",
     "no test of this module runs the conversion without the compiled extension",
     [PY + "_util.py"], [("conversion", "vmecpp_json_to_indata and its _*_to_namelist helpers")])
prop("P36", "File names map to case names and the working directory is restored",
     "The case name of NAME.json, input.NAME and wout_NAME.nc is NAME and any other file name is refused; a block run in another working directory really runs there and the previous directory is restored whether the block ends normally, raises, or the directory does not exist.",
     "every file name within the bounds; every way the block can end",
     "a test tries a few names",
     [PY + "_util.py"], [("names", "get_vmec_configuration_name"), ("directory", "change_working_directory_to")], over=("inputs", "fault_sequences"))
prop("P35", "Models with arrays survive JSON",
     "A data model with numpy arrays (in plain, optional, union, list, dict, tuple and nested fields) written to JSON, as text or as JSON-like data, and read back has the same values, shapes, number kinds and containers; the JSON holds only JSON types, with NaN and infinities as strings and every finite number as itself.",
     "every finite value, NaN and infinities at every position, shapes within the bounds, empty arrays included",
     "tests round-trip a handful of arrays",
     [PY + "_pydantic_numpy.py"], [("model", "BaseModelWithNumpy.model_dump, _serialize_field, _validate_field"), ("helpers", "serialize_special_field, deserialize_special_field, sanitize_floats_in_container, _reconstruct_floats_for_numpy")])
prop("P37", "An input reaches JSON and the solver core unchanged, inconsistent inputs do not",
     "A VMEC++ input built in Python is held as given, written to JSON and read back as the same input, and handed to the compiled core with every setting, profile, axis and boundary coefficient in its place; boundary tables are brought to the final resolution, short axis arrays are padded and long ones refused, asymmetric coefficients of a symmetric input are refused, and a profile set from a function is sampled at every grid position of every multigrid step without touching the given input.",
     "every value of every quantity within the bounds, each asymmetric field, axis length and schedule form",
     "the tests of this layer need the compiled extension and use a few example files",
     [PY + "__init__.py", PY + "_util.py"], [("input", "VmecInput validators, _to_cpp_vmecindata, _from_cpp_vmecindata, to_json, save"), ("profile", "set_profile")])
prop("P38", "Continuation keeps the shared part of a solution and follows its schedule",
     "Bringing a converged solution to another resolution keeps every shared mode, starts new modes at zero, keeps the values on shared surfaces, interpolates regularly in between (odd modes vanish on the axis), resizes axis and radial arrays consistently, declares the new resolution and leaves the source untouched; a continuation run solves exactly the scheduled steps with the boundary, axis, tolerance and iteration limit of each step, restarts each from the previous one, passes everything else on, and refuses schedules of the wrong length before solving.",
     "every coefficient value, resolutions and schedules within the bounds",
     "tests remap one table and interpolate one profile",
     [PY + "_continuation.py"], [("interpolation", "interpolate_solution, _remap_modes, _radial_interpolate, _radial_interpolate_geometry, _remap_axis, _state_mode_table"), ("schedule", "_run_fourier_continuation, _step_input")], over=("inputs", "histories"))
MGL = CPP + "vmecpp/common/makegrid_lib/makegrid_lib.cc"
MFP = CPP + "vmecpp/common/magnetic_field_provider/magnetic_field_provider_lib.cc"
MCL = CPP + "vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc"
prop("P44", "The coil-field table holds the coils' field at every point of the grid",
     "For a valid grid description the table of coil responses has one row per circuit and, for every point of the cylindrical grid in its documented order, the cylindrical components of the magnetic field (or vector potential) that the circuit's coils produce there: the sum over coils and conductors times windings, times the circuit's current or, when normalised, per unit of current through the first coil of the circuit. With stellarator symmetry on a grid symmetric about the midplane the mirrored half is the reflection of the computed half; on any other grid every point is computed. Written to an mgrid file the table loads back as the same field. A straight wire's field circles it and falls off with the distance; the current linked by an axis is the line integral of the field along it. Descriptions without extent or points, with an odd number of planes under symmetry, or in a missing file are refused with an error.",
     "every geometry, current and winding number, every grid description within the bounds",
     "tests compare a few coil sets against reference tables",
     [MGL, MFP], [("table", "ComputeMagneticFieldResponseTable, ComputeVectorPotentialCache, MakeCylindricalGrid"), ("file", "WriteMakegridNetCDFFile, ImportMakegridParametersFromJson"), ("field", "MagneticField, VectorPotential, LinkingCurrent")])
prop("P45", "Coil files become the circuits, coils and windings they list",
     "A coil file read in has the stated number of field periods and one circuit per identifier in order of first appearance, holding exactly the listed conductors with their shape, name and windings; malformed files are refused. Currents are read and set circuit by circuit, moving windings into circuit currents keeps the ampere-turns of every coil (a coil without a stated number of windings has one), radial movement shifts every conductor by the step and keeps its height, and a conductor with a missing entry is reported and produces no field.",
     "every coordinate, winding number and current; every arrangement of conductors and each fault within the bounds",
     "tests read a few coil files",
     [MCL], [("files", "ImportMagneticConfigurationFromMakegrid, ParseCurrentCarriers"), ("currents", "GetCircuitCurrents, SetCircuitCurrents, NumWindingsToCircuitCurrents"), ("geometry", "MoveRadially, Is*FullyPopulated")])
prop("P46", "The Python iteration follows the documented control and reports what happened",
     "Driven from Python, the force iteration reports convergence exactly when the last evaluated residuals are finite and all met the tolerance, never together with failure; it damps and steps with the documented time step, stores and reverts the geometry exactly when the chosen style says so (an unusable geometry is reverted under every style), re-guesses the axis once after an unusable start, gives up after 75 unusable geometries, respects the iteration limit, and its trace and per-iteration reports carry the numbers of that iteration. The multi-grid ramp solves every usable stage in order on one model, stops at a failed stage and refuses ambiguous resolution lists and unknown interpolations before solving.",
     "every sequence of residuals and geometry failures within the bounds, every style",
     "the tests of this module need the compiled extension and compare a few runs",
     [PY + "_iteration.py"], [("iteration", "solve_equilibrium"), ("ramp", "solve_multigrid, iterate")], over=("inputs", "histories"))
