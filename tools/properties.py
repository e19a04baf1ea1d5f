"""Property table: the source of properties.jsonl and MANIFEST.json."""

NA = {}

PROPS = [
    dict(
        id="P01",
        title="Channel results of a theory add up to its totals",
        statement="For every set of final states with any cross sections and partial widths, branching fractions are the "
                  "channel shares of the total (all zero when nothing is open), the totals are the sums over channels, and "
                  "every total photon, positron or neutrino spectrum is the sum of each channel's own spectrum weighted by "
                  "its branching fraction, vanishing for a closed channel. The spectrum a channel reports is always the one "
                  "of its own final state, and line spectra come with their own channel's branching fraction and energy.",
        over=["inputs", "configurations"],
        quant="every energy, every non-negative cross section / width assignment, every channel spectrum, up to 3 channels "
              "plus lines",
        why="tests evaluate a few concrete models; a mix-up of channels or weights shows only when two channels differ at "
            "an energy no test samples",
        files=["hazma/theory/__init__.py"],
        mech=[("TheoryAnn: branching fractions, totals, spectra, lines", "hazma/theory/__init__.py"),
              ("TheoryDec: widths and decay spectra", "hazma/theory/__init__.py")],
        observe=["annihilation_branching_fractions()", "total_spectrum()", "total_positron_spectrum()",
                 "total_neutrino_spectrum()", "gamma_ray_lines()", "partial_widths()"],
        note="Exhaustive over real-valued channel data for up to 3 channels; spectra and cross sections are arbitrary "
             "(uninterpreted) functions. Real arithmetic, no rounding.",
    ),
    dict(
        id="P02",
        title="Convolved spectra respond to every photon with the detector's resolution",
        statement="For any continuum spectrum, any lines and any positive energy resolution, a convolved spectrum interpolates "
                  "the integral over true energy of the spectrum times a normal density of the reconstructed energy whose "
                  "width is the resolution at the true energy, plus one such density per line weighted by branching fraction "
                  "and photon multiplicity; the true-energy grid spans the spectrum's range and is fine enough for the "
                  "resolution. A vanishing resolution carries no photons. The theories' convolved photon and positron "
                  "spectra use their own total spectrum and lines at the given energy.",
        over=["inputs", "configurations"],
        quant="every energy window, spectrum and resolution callback (vectorized, scalar-only, constant), up to 2 lines",
        why="tests convolve one spectrum with one resolution; line weights and the resolution's argument go wrong elsewhere",
        files=["hazma/parameters.py", "hazma/theory/__init__.py"],
        mech=[("convolved_spectrum_fn, spec_res_fn", "hazma/parameters.py"),
              ("total_conv_spectrum_fn", "hazma/theory/__init__.py")],
        observe=["convolved_spectrum_fn()", "spec_res_fn()", "total_conv_spectrum_fn()", "total_conv_positron_spectrum_fn()"],
        note="Spectra and resolutions are arbitrary functions; 3 output and at least 3 true energies per convolution.",
    ),
    dict(
        id="P03",
        title="Gamma-ray limits are the rates at which the data stop allowing the signal",
        statement="For any spectrum, mass, target and data, the binned limit is the rate at which the first bin reaches "
                  "n_sigma errors above its flux, or the chi squared its quantile; the unbinned limit is n_sigma over the "
                  "best signal to root background over energy windows; the Fisher limit is n_sigma times the marginal error "
                  "from the inverse information matrix. Signals scale with J or D, 1/(8 pi m^2) for annihilation and "
                  "1/(4 pi m) for decay and the target's solid angle. Flux files are read as E^p times flux with error bars, "
                  "bins keep their errors, and input arrays are left unchanged.",
        over=["inputs", "configurations"],
        quant="every piecewise linear spectrum on 3 to 5 energies, masses, targets, fluxes, errors; 1-3 bins, 1-2 background "
              "parameters",
        why="tests do not exercise the limits beyond a few stored values; a factor, a bin or an error column off changes every "
            "published limit",
        files=["hazma/theory/_theory_gamma_ray_limits.py", "hazma/flux_measurement.py"],
        mech=[("binned_limit, unbinned_limit, fisher", "hazma/theory/_theory_gamma_ray_limits.py"),
              ("FluxMeasurement", "hazma/flux_measurement.py")],
        observe=["binned_limit()", "unbinned_limit()", "fisher_limit()", "FluxMeasurement()"],
        note="Convolution replaced by an arbitrary piecewise linear spectrum (decided in P02); scipy linear splines exact.",
    ),
    dict(
        id="P04",
        title="CMB limits count all the energy injected at recombination",
        statement="For any spectra, lines and mass, the efficiency is the energy of every photon and of every electron and "
                  "positron (twice the positron spectrum), weighted by the tabulated efficiency at its energy and divided by "
                  "the center-of-mass energy, continuum plus lines with their branching fractions, counting a line of two "
                  "identical photons (or an electron-positron pair) twice; the limit on the rate is p_ann m / f_eff. The "
                  "velocity falls with the mass and with the root of the decoupling temperature. The theory's method and the "
                  "CMB constraint agree and treat every model on its own.",
        over=["inputs", "configurations"],
        quant="every mass, spectrum, branching fraction, line energy, decoupling temperature and allowed power; up to 2 lines",
        why="no test computes a CMB limit with lines; multiplicities and weights show only for particular channels",
        files=["hazma/theory/_theory_cmb.py", "hazma/limits/_cmb.py", "hazma/cmb.py"],
        mech=[("TheoryCMB", "hazma/theory/_theory_cmb.py"), ("CMBLimit", "hazma/limits/_cmb.py")],
        observe=["f_eff()", "cmb_limit()", "CMBLimit.constrain()", "vx_cmb()"],
        note="Efficiency tables are arbitrary functions; quadrature is the exact integral.",
    ),
    dict(
        id="P05",
        title="Constraint grids and limits evaluate every point and model on its own",
        statement="A constraint image holds, at row j and column i, the constraint of the theory with p1 = p1_vals[i] and "
                  "p2 = p2_vals[j] and every other parameter unchanged; a custom grid keeps its shape and each cell its own "
                  "theory. The gamma-ray constraint is the smallest room left in any bin: allowed minus predicted photons. "
                  "Limits hold one entry per model in order and leave the models unchanged; telescopes use their own "
                  "measurement and settings, the relic-density limit is the cross section where the abundance is met "
                  "(undefined if it never is), and composites never share parts. Unsupported requests are refused.",
        over=["inputs", "configurations", "histories"],
        quant="every parameter grid up to 3x3, every constraint function, 1-3 bins, 0-3 models, add/reset histories of up to "
              "3 steps",
        why="tests never build an image; transposed axes, stale parameters or shared state pass on square or single-point "
            "grids",
        files=["hazma/theory/_theory_constrain.py", "hazma/limits"],
        mech=[("TheoryConstrain", "hazma/theory/_theory_constrain.py"), ("AbstractLimit", "hazma/limits/_abstract.py"),
              ("RelicDensityLimit", "hazma/limits/_relic_density.py")],
        observe=["constrain()", "custom_constrain()", "constrain_binned_gamma()", "AbstractLimit.constrain()"],
        note="Constraint functions are arbitrary; exhaustive over grids up to 3x3 (4x4 thorough).",
    ),
    dict(
        id="P06",
        title="Relic density follows thermal freeze-out of an ideal gas",
        statement="For every temperature and mass the equilibrium density is the Bessel sum (or the massless value) of its "
                  "statistics, and all derivatives in T and x are the derivatives of the functions they belong to, for scalars "
                  "and arrays alike. The thermal average is x/(4 K2^2) times the integral of sigma z^2 (z^2 - 4) K1 from "
                  "threshold over the thermal range, unless the model brings its own. Freeze-out, the Boltzmann rate with its "
                  "Jacobian and the annihilation integral obey the Lee-Weinberg equation with the tabulated sqrt(g*), and the "
                  "abundance is Y0 m s0 / rho_crit.",
        over=["inputs", "configurations"],
        quant="every temperature, mass, degrees of freedom, cross section, freeze-out point and solver setting",
        why="tests check a constant cross section at a few masses; bosons, derivatives, low temperatures and options are not "
            "touched",
        files=["hazma/relic_density"],
        mech=[("equilibrium functions", "hazma/relic_density/_thermal_functions.py"),
              ("semi-analytic", "hazma/relic_density/_approx.py"), ("Boltzmann", "hazma/relic_density/_diffeq.py")],
        observe=["relic_density()", "neq()", "yeq_deriv()", "thermal_cross_section()", "boltzmann_eqn()"],
        note="Bessel functions and tabulated degrees of freedom are arbitrary functions tied by their derivative identity; "
             "root finder, quadrature and ODE solver are observed at scipy's boundary.",
    ),
    dict(
        id="P07",
        title="Two-body phase space and two-body kinematics are exact",
        statement="For every pair of masses and every energy, the two-body momentum satisfies 4 E^2 p^2 = "
                  "kallen(E^2, m1^2, m2^2), the flux factor is 1/(4 p E), and the integral of any squared matrix element is "
                  "its average over directions times p/(4 pi E), so zero below threshold. Widths and cross sections carry "
                  "1/(2M) and the flux factor, and the results depend only on the current energy, masses and matrix element "
                  "however they were set.",
        over=["inputs", "histories"],
        quant="every energy, masses >= 0, every matrix element of the angle, every quadratic matrix element of the momenta, "
              "setter histories of up to 3 steps",
        why="tests compare a handful of numbers at fixed masses; thresholds, unequal masses and setter orders are continuous "
            "or combinatorial",
        files=["hazma/phase_space/_two_body.py", "hazma/phase_space/_utils.py", "hazma/utils.py"],
        mech=[("two-body integrator", "hazma/phase_space/_two_body.py"),
              ("kinematic helpers", "hazma/utils.py")],
        observe=["TwoBody.integrate()", "two_body_momentum()", "cross_section_prefactor()"],
        note="All real energies and masses in the stated ranges; quadrature is modelled as the exact integral. "
             "Real arithmetic, no rounding.",
    ),
    dict(
        id="P08",
        title="Three-body phase space covers exactly the kinematic region",
        statement="For every energy and three masses, the three-body integral runs over exactly the allowed region of the two "
                  "scaled energies, with weight E^2/(128 pi^3) |M|^2 evaluated at the invariants of that point, and is zero "
                  "below threshold. Energy and pair-mass spectra have the kinematic end points, integrate to one and have "
                  "the shape of the squared matrix element over that region. Four-momenta rebuilt from two invariants are on "
                  "shell and conserve momentum, and all results follow the current energy, masses and matrix element "
                  "whatever the order in which they were set.",
        over=["inputs", "histories"],
        quant="every energy above threshold, every triple of masses, arbitrary matrix elements of the invariants, setter "
              "histories of up to 4 steps",
        why="tests integrate a few fixed matrix elements numerically; the bounds and the mapping must hold for every mass "
            "triple and setter order",
        files=["hazma/phase_space/_three_body.py", "hazma/phase_space/_utils.py"],
        mech=[("integration bounds and integrand", "hazma/phase_space/_three_body.py"),
              ("limits of energies and pair masses", "hazma/phase_space/_utils.py")],
        observe=["ThreeBody.integrate()", "ThreeBody.energy_distributions()", "ThreeBody.invariant_mass_distributions()"],
        note="Exact over real masses and energies; scipy's double quadrature is observed at the library boundary (integrand "
             "and limits proved, not its numerical error). Histograms of 2 bins.",
    ),
    dict(
        id="P09",
        title="RAMBO points are on shell, conserve momentum and carry the right weight",
        statement="Every point the RAMBO generator yields, for any draws of the random generator, has each particle on its "
                  "mass shell, energies that sum to the centre-of-mass energy and momenta that sum to zero, and a weight "
                  "that is the known massless phase-space volume times the mass correction of the algorithm times the "
                  "squared matrix element at that point. Integrals, widths and cross sections are the weighted means with "
                  "1/(2M) or the flux factor, batched or not, and depend only on the current energy and masses.",
        over=["inputs", "histories"],
        quant="every draw in (0,1), every energy above threshold, 2 to 4 particles, batches of up to 3 points, setter "
              "histories of up to 4 steps",
        why="tests check Monte-Carlo averages within errors, which hide a wrong weight in a corner or a stale scale after "
            "a setter",
        files=["hazma/phase_space/_rambo.py", "hazma/utils.py"],
        mech=[("Rambo stages: seeds, boost, mass correction, weights", "hazma/phase_space/_rambo.py"),
              ("generator, integrate, decay_width, cross_section", "hazma/phase_space/_rambo.py")],
        observe=["Rambo.generate()", "Rambo.generator()", "Rambo.integrate()", "Rambo.cross_section()"],
        note="Seed directions fixed for whole-generator claims, arbitrary for single stages. Convergence of the Newton "
             "iteration is outside (one step is checked). Real arithmetic.",
    ),
    dict(
        id="P10",
        title="Phase-space distributions are normalised densities of the right variable",
        statement="A one-dimensional phase-space distribution always integrates to one (to zero if there is no support), "
                  "keeps the bin edges it was given, interpolates its own bin values, and its expectation value of any "
                  "function is the integral of that function weighted with the density, for every method. Monte-Carlo "
                  "histograms count every point once, with its weight, in the bin of that particle's energy or that pair's "
                  "invariant mass, whether generated at once or in batches.",
        over=["inputs", "histories"],
        quant="up to 4 bins with arbitrary edges and weights, arbitrary integrands, up to 3 Monte-Carlo points with "
              "arbitrary momenta and weights in any split into batches, 2 to 4 particles",
        why="tests compare noisy histograms within wide tolerances, at a fixed sample size and with one batch",
        files=["hazma/phase_space/_dist.py", "hazma/phase_space/_rambo.py", "hazma/phase_space/_three_body.py"],
        mech=[("PhaseSpaceDistribution1D", "hazma/phase_space/_dist.py"),
              ("Rambo energy and invariant-mass histograms", "hazma/phase_space/_rambo.py"),
              ("ThreeBody with the rambo method", "hazma/phase_space/_three_body.py")],
        observe=["PhaseSpaceDistribution1D.expect()", "Rambo.energy_distributions()", "Rambo.invariant_mass_distributions()"],
        note="Real arithmetic; scipy's quad is the exact integral. Histograms of 2-3 bins and up to 3 points.",
    ),
    dict(
        id="P12",
        title="Altarelli-Parisi radiation is the charge-weighted collinear splitting",
        statement="For every energy, mass and charge the approximate final-state radiation is "
                  "alpha Q^2 / 2 pi times the fermion or scalar splitting function times the collinear logarithm, never "
                  "negative, zero beyond the kinematic end point; the energy version is the fraction version times 2/Q, and a "
                  "pair radiates as two particles. The deprecated helpers agree with it.",
        over=["inputs"],
        quant="every centre-of-mass energy, mass, charge and photon energy in wide ranges",
        why="tests sample a few energies away from the end points where the sign and cut-off matter",
        files=["hazma/spectra/altarelli_parisi.py", "hazma/utils.py"],
        mech=[("splitting spectra", "hazma/spectra/altarelli_parisi.py"),
              ("dnde_altarelli_parisi_* helpers", "hazma/utils.py")],
        observe=["dndx_photon_ap_fermion()", "dnde_photon_ap_scalar()", "dnde_altarelli_parisi_fermion()"],
        note="Exact over real inputs; logarithm and exponential exact with sign and monotonicity axioms.",
    ),
    dict(
        id="P13",
        title="Photon spectra from matrix elements are the phase-space ratio",
        statement="The final-state radiation computed from user-supplied matrix elements is, for every final state, the "
                  "radiative phase-space integral at fixed photon energy divided by the non-radiative width or cross section "
                  "with its Jacobian: the momenta handed to the matrix element are on shell, conserve the total momentum and "
                  "carry the requested photon energy. The spectrum is zero outside the photon's kinematic range, errors are "
                  "propagated from both integrals, and impossible inputs are refused.",
        over=["inputs"],
        quant="every energy above threshold, all masses, every photon energy; every matrix element of the angle for two-body "
              "states; massless three- and four-body states for arbitrary random directions of the listed kind",
        why="tests compare to known spectra of two processes within Monte-Carlo errors",
        files=["hazma/spectra/_fsr.py"],
        mech=[("dnde_photon_fsr and its integrators", "hazma/spectra/_fsr.py")],
        observe=["dnde_photon_fsr()"],
        note="Real arithmetic; scipy's quad exact for polynomials, otherwise observed at its boundary; Monte Carlo with up to "
             "3 points.",
    ),
    dict(
        id="P14",
        title="Boosted spectra integrate the rest-frame spectrum over the right window",
        statement="Boosting a line, two lines, a tabulated array or a function by any velocity gives the flat-box or integral "
                  "form 1/(2 gamma beta) times the integral of the rest-frame spectrum over momentum, between the energies "
                  "gamma (E -+ beta p), clipped to the spectrum's support; each is zero outside, equal to the rest-frame "
                  "spectrum at zero velocity, zero for unphysical velocities, and extra arguments reach the function.",
        over=["inputs"],
        quant="every line energy, product mass, velocity in (0,1) and energy; every spectrum; all integration rules",
        why="tests boost a few spectra at a few velocities of massless products",
        files=["hazma/spectra/boost.py"],
        mech=[("boost_delta_function, double_boost_delta_function", "hazma/spectra/boost.py"),
              ("dnde_boost, dnde_boost_array, make_boost_function", "hazma/spectra/boost.py")],
        observe=["boost_delta_function()", "dnde_boost()", "dnde_boost_array()"],
        note="Exact over real inputs; numerical quadrature and splines are observed at scipy's boundary.",
    ),
    dict(
        id="P11",
        title="Kinematic helpers and four-vector products are Lorentz-exact",
        statement="Four-vector products use the metric (+,-,-,-) along the requested axis of any array, are symmetric, "
                  "bilinear and invariant under boosts and rotations, and refuse axes that do not hold four components. The "
                  "Kallen function is symmetric and homogeneous and vanishes exactly at threshold; two-body momenta put both "
                  "particles on shell, the flux factor is 4 sqrt((p1.p2)^2 - m1^2 m2^2), and a process is accessible exactly "
                  "when the energy is at least the sum of the masses.",
        over=["inputs"],
        quant="every pair of four-vectors, boost, rotation, array layout in the bound, masses and energies",
        why="tests evaluate a few vectors; metric signs and axes can be wrong on layouts they do not use",
        files=["hazma/utils.py"],
        mech=[("ldot, lnorm_sqr, minkowski_dot", "hazma/utils.py"), ("kallen_lambda, two_body_momentum", "hazma/utils.py")],
        observe=["ldot()", "lnorm_sqr()", "kallen_lambda()", "two_body_momentum()", "kinematically_accessable()"],
        note="Exact over real inputs; arrays with up to 3 axes.",
    ),
    dict(
        id="P15",
        title="Spectra of arbitrary final states sum the contributions of every particle",
        statement="The photon, positron and neutrino spectra of one, two, three or more particles are the sum over particles "
                  "(every identical one included) of the decay spectrum at its energy, averaged over its energy distribution "
                  "in the phase space of the given matrix element, plus final-state radiation for charged particles when "
                  "requested and the primary electrons or neutrinos in their own flavor. Order does not matter; energies "
                  "below threshold and unknown particles, flavors or integrators are refused; marginal spectra average over "
                  "the given distribution.",
        over=["inputs", "configurations"],
        quant="every energy above threshold, every product energy, all single particles and pairs, the listed larger states "
              "with any energy distribution, every decay spectrum",
        why="tests compare a few states at one energy to stored tables; multiplicities, flavors and radiation mix up only on "
            "particular combinations",
        files=["hazma/spectra/_nbody.py", "hazma/spectra/convolve.py"],
        mech=[("dnde_photon, dnde_positron, dnde_neutrino", "hazma/spectra/_nbody.py"),
              ("marginalize, make_marginal_fn", "hazma/spectra/convolve.py")],
        observe=["dnde_photon()", "dnde_positron()", "dnde_neutrino()", "marginalize()"],
        note="Decay spectra are arbitrary functions; phase-space distributions are arbitrary 2-3 bin histograms.",
    ),
    dict(
        id="P16",
        title="Decay spectra of mesons boost their own rest-frame table",
        statement="The positron and neutrino spectra of every meson at a given energy are its own rest-frame table boosted to "
                  "that energy: 1/(2 gamma beta) times the integral of the table over product momentum in the kinematic window "
                  "clipped to the table, the table itself at rest, zero below the parent's mass and outside the kinematic "
                  "range. Neutrino flavors select rows in the order e, mu, tau, numbers and arrays agree, and the wrappers of "
                  "the compiled kernels forward their own kernel's result in the documented shape.",
        over=["inputs", "configurations"],
        quant="every parent energy and product energy, all ten mesons, both products, all flavors; 1 to 3 energies per call",
        why="tests compare stored values at a few energies for some mesons",
        files=["hazma/spectra/_positron", "hazma/spectra/_neutrino"],
        mech=[("positron tables", "hazma/spectra/_positron/_utils.py"),
              ("neutrino tables", "hazma/spectra/_neutrino/_utils.py")],
        observe=["dnde_positron_charged_kaon()", "dnde_neutrino_eta()", "dnde_photon_muon()"],
        note="Splines are observed at scipy's boundary, tables on disk are data, compiled kernels are arbitrary functions.",
    ),
    dict(
        id="P25",
        title="Units, detector responses and background models are self-consistent",
        statement="Effective areas and energy resolutions of every instrument come from its own table or constant (zero area "
                  "outside its table, FWHM converted to a standard deviation where given as FWHM), for numbers and arrays. "
                  "The parametric backgrounds keep their parameters in their places and report the exact derivative of their "
                  "flux in each one; tabulated backgrounds return the given flux and warn exactly outside their range. Unit "
                  "conversions agree with each other and invert exactly, and a cone of angle r subtends 2 pi (1 - cos r).",
        over=["inputs", "configurations"],
        quant="every energy, every parameter value, every instrument; 1 to 3 energies",
        why="tests check a few constants; no test evaluates a derivative or most instruments",
        files=["hazma/gamma_ray_parameters.py", "hazma/background_model.py", "hazma/parameters.py", "hazma/target_params.py"],
        mech=[("instrument responses, parametric backgrounds", "hazma/gamma_ray_parameters.py"),
              ("BackgroundModel", "hazma/background_model.py"), ("convert_sigmav, load_interp", "hazma/parameters.py")],
        observe=["effective_area_*()", "energy_res_*()", "GalacticCenterBackgroundModel.derivatives()", "convert_sigmav()",
                 "solid_angle_cone()"],
        note="Tables are arbitrary functions identified by their file; powers and exponentials exact.",
    ),
    dict(
        id="P26",
        title="Single-channel theories follow their one final state",
        statement="A single-channel theory has exactly its current final state: the whole cross section when both the dark "
                  "matter pair and the final state are kinematically allowed and none otherwise, the whole width when it "
                  "decays, spectra of that state at the given energy (the mass for decays), and an electron line exactly when "
                  "a two-body state contains an electron, at the two-body energy with the channel's branching fraction. Any "
                  "sequence of setting mass, state and rate ends in the same theory as constructing it.",
        over=["inputs", "histories"],
        quant="every mass, energy, cross section and width, nine final states, three construction histories",
        why="no test constructs these theories",
        files=["hazma/single_channel.py"],
        mech=[("SingleChannelAnn, SingleChannelDec", "hazma/single_channel.py")],
        observe=["annihilation_cross_sections()", "decay_widths()", "spectra()", "positron_lines()"],
        note="Final-state spectra are arbitrary functions, decided in P15.",
    ),
    dict(
        id="P20",
        title="Scalar mediator rates follow its current parameters in every channel",
        statement="Every partial width of the scalar is its squared coupling times two-body phase space, zero below threshold, "
                  "and they sum to the total. Setting parameters in any order gives the model constructed with them (derived "
                  "couplings of the Higgs-portal and heavy-quark models included), and every cross section sees those "
                  "parameters, the current width and its own final-state mass; self-scattering is s- plus t-channel exchange. Final-state radiation is the tree-level photon "
                  "spectrum inside its kinematic range and zero outside; photon and positron spectra sum radiation and decay "
                  "products at half the energy; lines sit at half the energy; and limits from rare meson decays, invisible "
                  "Higgs decays and CHARM are the bound minus production times the probability of the required decay.",
        over=["inputs", "configurations", "histories"],
        quant="every mass, coupling, scale and energy; every one- and two-step setter history of three models",
        why="no test constructs these models; a stale width, swapped kernel or wrong threshold passes them all",
        files=["hazma/scalar_mediator"],
        mech=[("widths", "hazma/scalar_mediator/_scalar_mediator_widths.py"),
              ("setters, derived models", "hazma/scalar_mediator/__init__.py"),
              ("final-state radiation", "hazma/scalar_mediator/_scalar_mediator_fsr.py"),
              ("meson and Higgs limits", "hazma/scalar_mediator/_scalar_mediator_constraints.py")],
        observe=["partial_widths()", "dnde_xx_to_s_to_ffg()", "spectrum_funcs()", "constraints()", "sigma_xx_to_s_to_ff()"],
        note="Compiled cross sections and boosted decay spectra are arbitrary functions of their arguments.",
    ),
    dict(
        id="P21",
        title="Vector mediator rates follow its current parameters in every channel",
        statement="Every partial width of the vector is its squared coupling times two-body phase space, zero below threshold, "
                  "and they sum to the total. Setting parameters in any order gives the model constructed with them (kinetic "
                  "mixing couples to electric charge, the quark-only model not to leptons), and every cross section sees those "
                  "parameters, the current width and its own lepton; self-scattering is s- plus t-channel exchange and no rate is negative. Final-state radiation is the tree-level photon spectrum "
                  "inside its kinematic range and zero outside; photon and positron spectra use their own product's decays at "
                  "the two-body energies; lines sit at the two-body energies with their channel's branching fraction.",
        over=["inputs", "configurations", "histories"],
        quant="every mass, coupling and energy; every one- and two-step setter history of three models",
        why="no test constructs these models; a stale width, swapped kernel or wrong threshold passes them all",
        files=["hazma/vector_mediator"],
        mech=[("widths", "hazma/vector_mediator/_vector_mediator_widths.py"), ("setters", "hazma/vector_mediator/__init__.py"),
              ("final-state radiation", "hazma/vector_mediator/_vector_mediator_fsr.py"),
              ("spectra", "hazma/vector_mediator/_vector_mediator_spectra.py")],
        observe=["partial_widths()", "dnde_xx_to_v_to_ffg()", "spectrum_funcs()", "positron_spectrum_funcs()"],
        note="Compiled cross sections and boosted decay spectra are arbitrary functions of their arguments.",
    ),
    dict(
        id="P22",
        title="Right-handed neutrino rates, amplitudes and spectra match their final states",
        statement="For every mass, mixing and flavour each width vanishes below threshold, is never negative and equals the V-A "
                  "rate (two-body mesons, two pions through the form factor, three leptons, three neutrinos), with the squared "
                  "amplitudes handed to the three-body spectra the V-A ones in the order of the final state. Widths sum to the "
                  "total, charged states counting both charges. Setting mass, mixing or flavour in any order gives the model "
                  "built with them. Each final state's spectrum is that of its own particles at the neutrino mass; lines carry "
                  "the two-body energy and the branching fraction of an existing final state.",
        over=["inputs", "configurations", "histories"],
        quant="every mass, mixing, flavour, energy, pair of invariants and form factor; setter histories up to three steps",
        why="the only tests look at widths below threshold and that nothing raises; values, order and amplitudes are untested",
        files=["hazma/rh_neutrino"],
        mech=[("widths and amplitudes", "hazma/rh_neutrino/_widths.py"), ("spectra", "hazma/rh_neutrino/_spectra.py"),
              ("final states", "hazma/rh_neutrino/_configure.py"), ("model", "hazma/rh_neutrino/_model.py")],
        observe=["RHNeutrino.decay_widths()", "RHNeutrino.spectra()", "gamma_ray_lines()", "positron_lines()"],
        note="The pion form factor and the spectra of the final states are arbitrary functions.",
    ),
    dict(
        id="P24",
        title="Vector form factors give the hadronic currents and widths they document",
        statement="For every energy, coupling and set of fit parameters each vector form factor is the documented sum over "
                  "resonances with isoscalar, isovector and strange charges, zero at or below threshold, and one energy gives "
                  "the number the array gives. Widths and cross sections are the coupling-squared current times the phase space "
                  "of the state's own masses with the Lorentz structure of its particles in order; two-body distributions are "
                  "a single bin, three- and four-body ones are normalised in increasing mass. Four-pion currents pair each pion "
                  "with its own slot and are Bose symmetric; the running coupling is that of the vacuum polarisation of the leptons and hadrons.",
        over=["inputs", "configurations"],
        quant="every energy, coupling, resonance parameter and set of four-momenta; one or two energies and resonances at a time",
        why="tests compare a few channels' widths at sampled energies with 10 percent tolerance; masses, slots and units pass",
        files=["hazma/form_factors/vector"],
        mech=[("widths, cross sections", "hazma/form_factors/vector/_base.py"),
              ("two-body structure", "hazma/form_factors/vector/_two_body.py"),
              ("three-body structure", "hazma/form_factors/vector/_three_body.py"),
              ("resonances", "hazma/form_factors/vector/_utils.py"),
              ("running coupling", "hazma/form_factors/vector/_alpha.py"),
              ("four-pion current", "hazma/form_factors/vector/_pi_pi_pi_pi.py")],
        observe=["form_factor()", "integrated_form_factor()", "width()", "cross_section()", "energy_distributions()",
                 "invariant_mass_distributions()"],
        note="Three-body integration itself is P08, RAMBO P09; real arithmetic, no rounding.",
    ),
    dict(
        id="P23",
        title="GeV vector mediator: widths, cross sections, relic density follow its couplings",
        statement="For every set of masses, couplings and energies the partial widths and annihilation cross sections of the GeV-scale "
                  "vector mediator are those of their own final states with the current parameters: leptons by the documented "
                  "formula above both thresholds, neutrinos at half of it, hadrons by the form factor with the model's mediator "
                  "mass, width and couplings, two mediators with identical particles counted once. Whatever was computed before, "
                  "a changed parameter is used everywhere; derived couplings follow eps or g and cannot be set. The total width is "
                  "the sum, one energy and a list agree, and the relic density averages the selected channels above threshold.",
        over=["inputs", "histories", "configurations"],
        quant="all masses, couplings, energies; one or two energies; up to two reads and three changes of parameters",
        why="no test builds this model: a stale cache entry, a swapped channel or a truncated thermal average goes unnoticed",
        files=["hazma/vector_mediator/_gev/model.py", "hazma/vector_mediator/_gev/cross_sections.py",
               "hazma/vector_mediator/_gev/thermal_cross_section.py"],
        mech=[("widths, cache, setters", "hazma/vector_mediator/_gev/model.py"),
              ("cross sections", "hazma/vector_mediator/_gev/cross_sections.py"),
              ("thermal average", "hazma/vector_mediator/_gev/thermal_cross_section.py")],
        observe=["partial_widths()", "width_v()", "width_v_to_*", "sigma_xx_to_*", "annihilation_cross_section_funcs()",
                 "form_factor_*", "relic_density()", "eps", "g"],
        note="Form factors themselves are P24; the Boltzmann solver is P07.",
    ),
    dict(
        id="P27",
        title="GeV vector mediator: spectra are the sum over the products of each state",
        statement="For every model, centre-of-mass energy and product energy (one or a list) the photon, positron and neutrino spectra of "
                  "each final state of the GeV-scale vector mediator are the sum over that state's own particles, each at its own energy "
                  "(two-body kinematics, or averaged over its distribution from the form factor), plus final-state radiation for photons, and zero "
                  "below threshold. Two mediators give twice the decay spectra weighted by branching fractions and boosted; lines have "
                  "two-body energies; neutrino totals weight every channel by its branching fraction.",
        over=["inputs", "configurations"],
        quant="all masses, couplings, energies, flavours and binnings; any decay spectrum; two bins per distribution",
        why="no test evaluates these spectra; a swapped particle or a lost factor only shows for one final state",
        files=["hazma/vector_mediator/_gev/spectra.py", "hazma/vector_mediator/_gev/positron.py",
               "hazma/vector_mediator/_gev/neutrino.py", "hazma/vector_mediator/_gev/model.py"],
        mech=[("photons", "hazma/vector_mediator/_gev/spectra.py"), ("positrons", "hazma/vector_mediator/_gev/positron.py"),
              ("neutrinos", "hazma/vector_mediator/_gev/neutrino.py"), ("lines, totals", "hazma/vector_mediator/_gev/model.py")],
        observe=["_spectrum_funcs()", "_positron_spectrum_funcs()", "_neutrino_spectrum_funcs()", "*_line_energies()",
                 "neutrino_lines()", "neutrino_spectra()", "total_neutrino_spectrum()"],
        note="Decay spectra, splitting functions and boosts are arbitrary here (P15, P16); the positron spectra count both charges, as the code documents.",
    ),
    dict(
        id="P28",
        title="CKM matrix: unitary and built from the Wolfenstein parameters given",
        statement="For every set of Wolfenstein parameters the CKM matrix that is built is unitary (rows and columns), has the standard phase "
                  "convention, and returns those parameters: |Vus| and |Vcb| give lambda and A, and -Vud Vub*/(Vcd Vcb*) is exactly "
                  "rho-bar + i eta-bar. The named elements (Vud ... Vtb) are the entries of the stored matrix.",
        over=["inputs"],
        quant="all lambda in (0.01, 1/2), A in (0.01, 2), |rho-bar|, |eta-bar| <= 1",
        why="no test looks at the matrix: a lost conjugate or factor changes only the small entries",
        files=["hazma/parameters.py"],
        mech=[("construction", "hazma/parameters.py")],
        observe=["CKM", "Vud ... Vtb"],
        note="The values of the parameters themselves are data, not checked.",
    ),
    dict(
        id="P29",
        title="Compiled decay spectra: photons, positrons and neutrinos from leptons and mesons",
        statement="For every product energy and every energy of the decaying particle, the compiled spectra hazma._core.photon.*, positron.* and "
                  "neutrino.* vanish below the particle's mass and outside the kinematic window, and otherwise equal: muon photons, the radiative "
                  "muon decay formula (at rest) and its integral over the decay angle (in flight); charged pion photons, the angular integral of "
                  "radiative pi -> l nu gamma (inner bremsstrahlung, structure dependent part, interference) for both leptons plus the boosted muon, "
                  "weighted by branching ratios; neutral pion photons, the flat box 2 BR/(E beta); rho photons, the boost of the spectra of its two "
                  "pions at their two-body energies; tabulated photons of kaons, eta, eta', omega and phi, the table (linear between nodes, 1/E below, "
                  "zero above) at rest, its boost plus one line per two-body photon mode in flight; muon positrons and neutrinos, the Michel spectra "
                  "and their boosts; pion positrons and neutrinos, the boost of the muon's spectrum at its energy in the pion rest frame plus the "
                  "two-body lines. A line seen from the moving frame is 1/(2 gamma beta k0) inside its window.",
        over=["inputs"],
        quant="all energies of product and parent; every branch of the compiled kernels; integrals through their integrand at any point of their "
              "window; tables of 3 or 4 arbitrary nodes",
        why="the kernels are transliterated closed forms with dozens of coefficients, windows and branching ratios; the repository's comparison "
            "with stored values needs the compiled module, which its tests cannot build here",
        files=["rust/src/kernels/photon_muon.rs", "rust/src/kernels/photon_pion.rs", "rust/src/kernels/photon_rho.rs",
               "rust/src/kernels/photon_tables.rs", "rust/src/kernels/positron_muon.rs", "rust/src/kernels/positron_pion.rs",
               "rust/src/kernels/neutrino_muon.rs", "rust/src/kernels/neutrino_pion.rs", "rust/src/boost.rs", "rust/src/interp.rs",
               "rust/src/constants.rs", "rust/src/photon.rs", "rust/src/positron.rs", "rust/src/neutrino.rs"],
        mech=[("photons", "rust/src/kernels/photon_pion.rs"), ("positrons", "rust/src/kernels/positron_muon.rs"),
              ("neutrinos", "rust/src/kernels/neutrino_muon.rs"), ("boosts", "rust/src/boost.rs"), ("tables", "rust/src/kernels/photon_tables.rs")],
        observe=["dnde_photon_*", "dnde_positron_*", "dnde_neutrino_*", "boost_delta_function", "boost_integrate_linear_interp", "interp"],
        note="Nine defects the repository records under docs/followups and pins by its own tests are known findings; each has a companion claim that "
             "allows only the recorded value or the right one. The adaptive integrator and the dilogarithm are boundaries.",
    ),
    dict(
        id="P30",
        title="Compiled cross sections of the MeV scalar and vector mediators",
        statement="For every center-of-mass energy, dark matter and mediator mass, coupling and width, the compiled annihilation cross sections "
                  "hazma._core.scalar_mediator.* and hazma._core.vector_mediator.* equal the s-channel formula for Dirac dark matter: "
                  "gsxx^2 beta_x/(2 D) (scalar) or gvxx^2 (1 + 2 mx^2/s)/(beta_x D) (vector) times E times the width of a mediator of mass E into the "
                  "same final state (leptons, photons, charged and neutral pions, pi0 gamma, pi0 V), D the Breit-Wigner denominator, and exactly zero "
                  "below the threshold of either side; annihilation into two mediators is the t- plus u-channel result with identical particles "
                  "counted once, S S -> x x its detailed-balance inverse. The thermal average is x/(2 K2(x))^2 times the integral from z = 2 to at "
                  "least max(50/x, 100) of sigma(mx z) z^2 (z^2 - 4) K1(x z), sigma summing every channel including both leptons; the vector "
                  "one saturates for x above 300.",
        over=["inputs"],
        quant="all energies, masses, widths and couplings; every branch of the compiled kernels; thermal: any x, integrand at any z",
        why="the cross sections are long transliterated expressions: a wrong coefficient, mass, exponent or threshold shifts rates everywhere, and "
            "the repository's own comparison needs the compiled module, which its tests cannot build here",
        files=["rust/src/kernels/scalar_xs.rs", "rust/src/kernels/vector_xs.rs", "rust/src/kernels/soft_complex.rs", "rust/src/scalar_mediator.rs",
               "rust/src/vector_mediator.rs"],
        mech=[("scalar mediator", "rust/src/kernels/scalar_xs.rs"), ("vector mediator", "rust/src/kernels/vector_xs.rs"),
              ("argument order at the binding", "rust/src/vector_mediator.rs")],
        observe=["sigma_xx_to_s_to_*", "sigma_xx_to_ss", "sigma_ss_to_xx", "sigma_xx_to_v_to_*", "sigma_xx_to_vv", "thermal_cross_section"],
        note="Rust is compiled to LLVM IR and executed symbolically. The value of the adaptive integral is not checked. Elastic scattering is a known "
             "finding (kinematics of equal masses; no 1/vh^2), as is the TypeError at e_cm = 2 mx.",
    ),
]
