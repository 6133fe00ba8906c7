p("C05", "Near fields equal the exact fields inside and around the sphere",
  "At every probe position - outside, in every layer, at the centre, on axes, on and next to interfaces - the incident, "
  "scattered and total electric and magnetic fields equal the exact solution for x-polarised plane-wave illumination along z, "
  "for every particle and wavelength of a batch, whatever the sizes of the other particles in it.",
  "inputs configurations",
  "Spheres of 1-5 layers, x 1e-3..60, all material classes, all backends, batches up to 3 particles x 3 wavelengths.",
  "Tests evaluate one field map of one or two particles; regions (thin shells, centre, interfaces), absorption and mixed "
  "batches each use a different part of the code.",
  [MSH, SPE, HLP], [("near fields", MSH + ":nearfields"), ("inner expansion coefficients", MSH + ":_miecoef_pena"),
                    ("vector harmonics", SPE + ":vsh")])

p("C06", "Near fields satisfy Maxwell's equations and the interface conditions",
  "Inside every layer and outside the particle E and H of the incident, scattered and total field fulfil the curl equations "
  "with the local index; tangential E and H (and normal D and B) of the total field are continuous at every interface.",
  "inputs configurations",
  "All backends, 1-5 layers, x 0.1..30, random directions, both sides of each interface and stencils inside each region.",
  "The conditions relate fields at different points for every particle; a test samples isolated values.",
  [MSH, SPE], [("near fields", MSH + ":nearfields"), ("region selection", MSH + ":nearfields")])

p("C07", "Near fields, cross sections and far field describe the same energy flow",
  "The Poynting flux through any sphere around the particle gives the scattering, absorption and extinction cross "
  "sections; the losses integrated over the volume give the absorption; the scattered near field far away converges to the "
  "amplitudes S1 and S2.",
  "inputs configurations",
  "1-4 layers, all material classes and backends, x 0.1..12, several surrounding radii and directions.",
  "This links three separately implemented observables through exact quadrature; no existing test relates them.",
  [MSH], [("cross sections", MSH + ":cross_sections"), ("near fields", MSH + ":nearfields"),
          ("angular scattering", MSH + ":angular_scattering")])

p("C08", "Automatic derivatives are correct for every input, output and backend",
  "Gradients of coefficients (external and internal), cross sections, angular "
  "scattering and near fields with respect to wavelength, radii, permittivities, host, angles and probe positions equal the "
  "derivatives of the returned values; they are finite, and asking for gradients does not change the values. The same holds "
  "through the Particle interface.",
  "inputs configurations",
  "Random functionals and directions, all backends, 1-5 layers, batches, positions on axes and near the centre.",
  "Gradients are tested for a few spheres with gradcheck; each output, input and custom backward function has its own formula "
  "whose errors show only for some parameters.",
  [MSH, SPE, MAIN], [("custom backward functions", SPE + ":_AutoDiffJn"), ("solvers", MSH + ":mie_coefficients")],
  "randomised search; derivatives judged against converged finite differences")

p("C09", "Vectorised evaluation equals one-by-one evaluation in every layout",
  "Evaluating many particles, wavelengths, angles or positions in one call gives for each entry what a call with this entry "
  "alone gives. Reordering, repeating or selecting entries reorders the results; all accepted layouts of permittivities and "
  "host that describe the same input give the same results, with the documented shapes.",
  "inputs configurations",
  "Batches up to 4 x 4, every function and backend, all documented permittivity and host layouts.",
  "Tests use one or two layouts; broadcasting errors appear for particular combinations of sizes.",
  [MSH], [("input layouts", MSH + ":_prepare_inputs"), ("broadcasting", MSH + ":mie_coefficients")])

p("C10", "Truncation never changes the orders it keeps and the automatic one converges",
  "Coefficients and multipole contributions of an order do not depend on how many orders are requested; with automatic "
  "truncation cross sections, angular scattering and near fields agree with results with more orders for the largest "
  "particle and the shortest wavelength of the batch alike.",
  "inputs configurations",
  "Two explicit n_max from 1 to 65 or automatic vs larger, all backends, x 0.01..50, batches.",
  "Recurrence start orders and series lengths fail only for particular sizes, indices and orders.",
  [MSH, SPE, HLP], [("truncation rules", HLP + ":get_truncution_criteroin_wiscombe"), ("recurrence start", SPE + ":pena_D1_n")])

p("C11", "Results are invariant under physically irrelevant changes",
  "Changing the unit of length, or scaling all refractive indices and the wave number together, changes results only by the "
  "known factors. A fictitious interface inside a layer or a coating of host material has no effect. Fields obey the "
  "mirror symmetries and superposition total = incident + scattered; an index-matched particle is invisible.",
  "inputs configurations",
  "Layered spheres of all classes, all backends and observables, splits at any layer and fraction.",
  "Metamorphic relations over all particles; tests never compare two descriptions of the same physics.",
  [MSH, SPE], [("multilayer recursion", MSH + ":_miecoef_pena"), ("closed-form coefficients", MSH + ":_miecoef"),
               ("near fields", MSH + ":nearfields")])

p("C12", "All interfaces and input forms describe the same particle",
  "The Particle class, the functional multishell interface and the core-shell functions give the same results for the same "
  "particle, whether given by materials, permittivities, numbers, core/shell arguments, layer lists, numpy arrays, tensors, "
  "non-contiguous or integer inputs. Repeated evaluation of one Particle gives the same result, and its core/shell aliases and summary describe it.",
  "inputs configurations",
  "Layered and core-shell particles, four observables, all backends, all documented argument forms.",
  "Tests call each interface with one example; argument handling differs per form and observable.",
  [MAIN, MSH, S + "coreshell.py"], [("Particle", MAIN + ":Particle"), ("core-shell functions", S + "coreshell.py:mie_coefficients")])

p("C13", "Materials return the database's permittivity independently of history",
  "A material returns at every wavelength the permittivity its data file describes (tabulated nk / n / k / eps interpolation, "
  "dispersion formulas) with the right derivative, for scalars, vectors and repeated wavelengths, whatever "
  "was asked before, with or without gradients, also after plots and device moves. Particles made from materials use exactly "
  "these values.",
  "inputs histories",
  "Database and generated files (all supported data types), query histories up to 7 steps, wavelengths inside the data range.",
  "Tests query a few wavelengths of two materials; errors depend on data type, spectral position and previous queries.",
  [MAT, MAIN], [("database materials", MAT + ":MatDatabase"), ("constant materials", MAT + ":MatConstant")])

p("C14", "Spherical Bessel and Hankel functions and their derivatives are exact",
  "All public spherical Bessel, Neumann, Hankel and Riccati-Bessel functions return the mathematical values for every order and "
  "argument (real, complex, at zeros of sin z, near the turning point, zero where defined) with the documented shape; the derivative "
  "functions return the first derivative; backpropagation gives the complex-analytic gradient and leaves arguments alone.",
  "inputs",
  "Orders 0..30, |z| 1e-3..90, Im z <= 4, scalar and multi-dimensional arguments.",
  "Tests compare grids of moderate arguments; recurrence failures occur at special arguments or orders.",
  [SPE], [("Bessel functions", SPE + ":sph_jn_torch"), ("autograd wrappers", SPE + ":Jn"), ("f_der", SPE + ":f_der")])

p("C15", "Sequences of the multilayer recursion are exact over the complex plane",
  "Logarithmic derivatives, Riccati-Bessel sequences, the quotient psi/zeta and interface ratios Q used by the multilayer solver "
  "equal their mathematical definition at every order, with correct gradients, for small, large, lossless, absorbing and purely "
  "imaginary arguments, including several arguments in one call.",
  "inputs",
  "1-4 arguments |z| up to 150 in the upper half plane, orders up to |z|+25.",
  "Stability of up/downward recurrences depends on argument and order; tests check single values at most.",
  [SPE], [("D1 and D3", SPE + ":pena_D1_n"), ("psi and zeta", SPE + ":pena_psi_zeta_n"), ("Q", SPE + ":pena_Q_n")])

p("C16", "Angular functions and vector spherical harmonics match their definition",
  "pi_n and tau_n equal the associated Legendre expressions for every order and cosine including the poles, are differentiable and "
  "orthogonal. The vector spherical harmonics M and N (odd and even, all radial kinds) equal their definition at every position, "
  "wavelength and medium, in both implementations.",
  "inputs configurations",
  "Orders up to 120, cosines in [-1, 1], harmonics of kinds 1-3 at 1-4 positions x 1-3 wavelengths in complex media.",
  "Tests check a few orders at generic angles; normalisation, parity and poles quantify over all orders.",
  [SPE], [("angular functions", SPE + ":pi_tau"), ("vector harmonics", SPE + ":vsh")])

p("C17", "Helper functions: interpolation, truncation rules, plane waves, derivatives",
  "Linear interpolation passes through the data, is linear between neighbours and constant outside, for any order "
  "of the data; truncation rules return the published order for the largest argument; the plane-wave expansion rebuilds the plane "
  "wave; numerical differentiation helpers give the derivative.",
  "inputs",
  "1-12 data points in any order, batches of sizes, 1-5 positions, several holomorphic functions.",
  "Tests do not call most of them; edge cases are unsorted data, end points and scalar inputs.",
  [HLP, SPE], [("interpolation", HLP + ":interp1d"), ("plane wave expansion", HLP + ":plane_wave_expansion")])

p("C18", "Coordinate and vector-field transformations are exact and mutually inverse",
  "Cartesian / spherical conversion of positions gives the exact radius and angles and round-trips for every position including "
  "the poles and axes; conversion of field vectors is the orthogonal basis change at the position: it preserves lengths and "
  "scalar products, round-trips, and agrees with the Jacobian of the coordinates.",
  "inputs",
  "1-6 points over 8 decades, special directions included, complex vectors.",
  "Tests do not cover poles, axes or the branch cut of the azimuth.",
  [HLP], [("positions", HLP + ":transform_xyz_to_spherical"), ("fields", HLP + ":transform_fields_spherical_to_cartesian")])

p("C21", "The torchGDM bridge reproduces Mie theory in coupled-dipole simulations",
  "Mie coefficients, effective electric and magnetic dipole polarizabilities and global polarizability matrices handed to torchGDM "
  "equal those of the exact Mie series for every layered particle, wavelength order and solver backend, and simulations with them "
  "reproduce its cross sections and fields. The autodiff patches leave simulation results unchanged and give the correct radius "
  "gradients. Without torchGDM the classes raise a clear error.",
  "inputs configurations",
  "1-4 layers, 1-3 unsorted wavelengths, x 0.1..2.5, pairs of particles, random incidence, patched and unpatched torchGDM.",
  "Tests run the bridge for one particle; conventions (units, host, wavelength matching, coupling) matter per configuration.",
  [TG], [("GPM extraction", TG + ":extract_GPM_sphere_miediff"), ("Mie coefficients", TG + ":mie_ab_sphere_3d_AD")])

p("C19", "Invalid inputs are rejected, valid ones accepted, on every interface",
  "Every observable and every constructor accepts each documented valid description of a particle and rejects its invalid "
  "neighbours with an exception: radii that do not increase, incomplete or contradictory arguments, permittivities, host or "
  "wavevectors of the wrong shape, unknown backends or materials, too many layers for closed-form backends. No invalid "
  "description silently yields numbers.",
  "inputs configurations",
  "Random valid batches with one defect out of 49 kinds, in all four observables, Particle, materials and helpers.",
  "Tests check two or three error cases; a wrong shape that happens to broadcast gives plausible but wrong results.",
  [MSH, MAIN, MAT, SPE], [("layer inputs", MSH + ":_broadcast_mie_layers"), ("Particle constructor", MAIN + ":Particle")])

p("C20", "Results do not depend on what was computed before, and inputs stay untouched",
  "In any sequence of calls in one session - observables, particles sharing materials, materials, special functions, rejected calls, "
  "gradient modes, in-place updates of the caller's tensors, overwritten results - each call returns what it returns alone in a new "
  "process. No call modifies its inputs, their requires_grad flag, a random generator or a global setting.",
  "histories",
  "Histories of 2-9 calls over 1-3 configurations, 2 particles, 6 materials; no_grad, inference mode, backward, float64 default type.",
  "Tests run each call once in a fixed order; caches and in-place updates fail only for particular sequences.",
  [MSH, MAIN, MAT, SPE], [("material lookup", MAT + ":MatDatabase"), ("solver", MSH + ":mie_coefficients")])

p("C22", "Single precision gives the double-precision results to single accuracy",
  "precision='single', single-precision inputs and any mixture of them return the same entries and shapes as double precision, with values "
  "that agree to single accuracy (relative to the effect of rounding the inputs), for all observables, layered spheres and backends. "
  "No value overflows or becomes NaN where the double-precision result is finite.",
  "inputs configurations",
  "Batches of 1-2 particles x 1-3 wavelengths, 1-4 layers, x 0.002..20, every observable and backend, each input alone or all inputs rounded.",
  "Tests never use single precision; overflow and cancellation depend on size, order and material.",
  [SPE, MSH], [("recurrences", SPE + ":pena_psi_zeta_n"), ("dtype handling", MSH + ":_miecoef_pena")])

p("C23", "Second derivatives and forward-mode derivatives are exact or refused",
  "Differentiating any observable twice (Hessian-vector products with respect to wavenumbers, radii, permittivities, host, angles) gives the "
  "derivative of the gradient for every backend. Forward-mode derivatives and torch.func.jacrev agree with reverse mode, or raise; no part of a "
  "derivative is dropped silently.",
  "inputs configurations",
  "Random functionals of 1-3 outputs and random directions, 1-3 layers, 1-2 particles and wavelengths, all backends.",
  "Tests compute first derivatives of single cases; a detached intermediate changes only higher derivatives.",
  [SPE, MSH], [("scipy Bessel functions", SPE + ":_AutoDiffJn"), ("solver", MSH + ":mie_coefficients")])
