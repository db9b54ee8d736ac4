#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays valid JSON)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

M = "OpenNTN/"
prop("C01", "Every supported configuration yields a well-formed, finite channel",
 "For every supported scenario, band, link direction, elevation angle, platform height, array, LOS state and valid topology (including a single user, co-located users, users beneath the platform and different topologies per batch example), generating the channel succeeds and returns path coefficients of shape [batch, rx, rx antennas, tx, tx antennas, paths, time samples] and path delays of shape [batch, rx, tx, paths] in the configured precision. All values are finite; delays are non-negative and sorted in increasing order, paths that do not exist in a link's state carry exactly zero power, and every link has at least one path with non-zero power unless the antenna patterns null it.",
 ["inputs", "configurations"],
 "All scenarios x bands x directions x elevation angles in [10,90] x heights from HAPS to GEO x antenna arrays x LOS/NLOS/mixed states x topologies (1..N users, 1..B batch examples, co-located users, per-example heights) x number of time samples and sampling frequencies.",
 "The tests only call the full model for a handful of large symmetric topologies and never assert shape, order, finiteness or masking of its output over the configuration space; six of them are flaky because of NaNs they do not control.",
 [M+"system_level_channel.py", M+"lsp.py", M+"rays.py", M+"channel_coefficients.py", M+"system_level_scenario.py"],
 [("model call pipeline", M+"system_level_channel.py:__call__"), ("cluster masking", M+"rays.py:_compute_clusters_mask"), ("square roots of the correlation matrices", M+"lsp.py:topology_updated_callback"), ("path sorting and reduction", M+"channel_coefficients.py:_step_11_reduce_nlos")],
 ["Urban/DenseUrban/SubUrban.__call__"])

prop("C02", "Path coefficients equal the 3GPP ray-superposition formula",
 "Given the rays, Rician factors, cluster delay spread, topology and initial phases of a call, every returned path coefficient and delay equals the standard's superposition (38.901 eq. 7.5-22 to 7.5-30 with the 38.811 ionospheric Faraday rotation and satellite Doppler): array phases of both ends, rotated polarized element fields, cross-polarization, power split over the 20 rays, the two strongest clusters split in three delayed sub-clusters, and LOS and scattered parts weighted by the Rician factor. This holds for any array orientation, polarization, spacing, user velocity, LOS mix, number of transmitters and receivers and sampling times.",
 ["inputs", "configurations"],
 "All rays, orientations, velocities, arrays (rows, columns, panels, spacings, single/dual polarization, every pattern) at both ends, LOS/NLOS mixes, batch sizes, tx/rx counts, time grids, carrier frequencies and platform heights on both sides of 600 km.",
 "The step tests compare isolated helpers on one fixed array/topology pair with a copy of the code; combinations (dual polarization with panels at both ends, mixed LOS states per batch, sub-cluster/first-path interplay, non-trivial rotations) are not reached.",
 [M+"channel_coefficients.py"],
 [("field/array/Doppler/phase factors", M+"channel_coefficients.py:_step_11_nlos"), ("LOS path", M+"channel_coefficients.py:_step_11_los"), ("sub-clusters", M+"channel_coefficients.py:_step_11_reduce_nlos"), ("Rician combination", M+"channel_coefficients.py:_step_11"), ("Faraday rotation", M+"channel_coefficients.py:_step_11_faraday_rotation")],
 ["ChannelCoefficientsGenerator.__call__(debug=True)"])

prop("C03", "Path loss and shadow fading are applied once, per link, as configured",
 "The returned coefficients are the unit-power channel of each link multiplied by exactly that link's gain: 10^(-PL/20) if path loss is enabled, times the square root of that link's shadow-fading factor if shadow fading is enabled, and 1 for whatever is disabled, for uplink and downlink alike. The total path loss is the sum of basic, gas, scintillation and entry losses of the link, and disabling shadow fading removes every random shadowing from the link gain.",
 ["inputs", "configurations", "histories"],
 "All four enable-flag combinations x directions x scenarios x batches/users with different losses, over repeated calls and topology changes.",
 "The step-12 tests check one fixed scaling on one configuration; a gain applied to the wrong link, twice, or with the wrong exponent in one flag/direction combination is not observed.",
 [M+"system_level_channel.py", M+"lsp.py", M+"utils.py"],
 [("gain application", M+"system_level_channel.py:_step_12"), ("path-loss sum", M+"lsp.py:sample_pathloss"), ("shadowed basic loss", M+"utils.py:compute_pathloss_basic")],
 ["model call output vs. recorded unit-power channel"])

prop("C04", "Deterministic link-budget terms follow the ITU/3GPP formulas",
 "For every carrier, elevation angle, platform height and atmosphere the free-space loss equals 32.45+20log10(f_GHz)+20log10(d_m) over the curved-earth slant range, NLOS links and only they add the tabulated clutter loss, gas absorption equals the P.676 zenith attenuation over sin(elevation), and scintillation equals the 38.811 ionospheric law below 6 GHz and the P.618 tropospheric law above. Each term is finite, non-negative and equal for all links of the same state and geometry.",
 ["inputs", "configurations"],
 "All carriers in both bands, elevation angles in [10,90], heights, scenarios, temperatures, pressures, vapour densities, humidities, antenna diameters and efficiencies.",
 "The link-budget tests check a few calibration points within +-0.1..1 dB ranges at default atmosphere; other frequencies, atmospheres and per-link structure are never compared with an independent model.",
 [M+"utils.py", M+"system_level_scenario.py"],
 [("basic loss", M+"utils.py:compute_pathloss_basic"), ("gas", M+"utils.py:compute_pathloss_gas"), ("scintillation", M+"utils.py:compute_pathloss_scintilation"), ("entry", M+"utils.py:compute_pathloss_entry")],
 ["scenario.free_space_pathloss/gas_pathloss/scintillation_pathloss/entry_pathloss/basic_pathloss"])

prop("C05", "Link geometry follows from the node positions, per example and per link",
 "For every topology the 2D distances (platform-user and user-user), the curved-earth slant range for the link's own platform height, and the LOS departure and arrival angles equal the values implied by the positions, the arrival direction is the exact reverse of the departure direction, and all angles lie in [0,360) degrees (zenith in [0,180]). Each batch example and link depends only on its own nodes, whatever else is in the batch.",
 ["inputs", "configurations"],
 "All node positions (every quadrant, users above/below/beneath, several batch examples with different platform heights), elevation angles and numbers of users.",
 "The geometry tests use a platform at a fixed height over generated users in the first quadrant and batch-homogeneous heights; arrival zenith is not asserted.",
 [M+"system_level_scenario.py"],
 [("distances and angles", M+"system_level_scenario.py:_compute_distance_2d_3d_and_angles")],
 ["scenario.distance_2d/distance_3d/matrix_ut_distance_2d/los_aod/los_aoa/los_zod/los_zoa"])

prop("C06", "Generated topologies respect the requested drop parameters",
 "Every generated single-sector topology puts the platform at (0,0,height), puts all users of a call inside one square cell of side the inter-site distance whose centre sees the platform at the requested elevation angle, and keeps user heights, speeds and outdoor states within the requested ranges with horizontal velocities. Every user's array boresight points at the platform in azimuth and is tilted to the requested elevation angle, and unspecified parameters take the scenario's defaults.",
 ["inputs", "configurations"],
 "All scenarios, heights, elevation angles, inter-site distances, height/velocity ranges, batch sizes and user counts, and all random draws.",
 "The tests check a few aggregate properties for first-quadrant cells; orientation against position, range bounds under unusual parameters and cells straddling the axes are not checked.",
 [M+"utils.py"],
 [("user drop", M+"utils.py:drop_uts_in_sector"), ("topology generation", M+"utils.py:generate_uts_topology"), ("single sector", M+"utils.py:gen_single_sector_topology"), ("defaults", M+"utils.py:set_3gpp_scenario_parameters")],
 ["gen_single_sector_topology"])

prop("C07", "Partial topology updates keep the rest and leave no stale derived state",
 "After any sequence of topology updates, each topology or atmosphere parameter equals the value most recently given for it (never reset by an update that omits it), and all derived quantities - distances, angles, link states, large-scale statistics, path losses - equal those of a fresh scenario configured directly with those final values. The next generated channel uses the updated positions, orientations, velocities, states and Doppler setting, and forgetting a mandatory parameter on first use is rejected.",
 ["histories"],
 "All sequences of partial updates (any subset of parameters per call, including shape changes, forced-LOS changes and atmosphere-only changes) interleaved with channel generation.",
 "The tests set each topology once; a stale cache or a parameter reset by a later partial update needs a multi-step history.",
 [M+"system_level_scenario.py", M+"system_level_channel.py"],
 [("update tracking", M+"system_level_scenario.py:set_topology"), ("samplers refresh", M+"system_level_channel.py:set_topology")],
 ["scenario properties after each update", "model call"])

prop("C08", "Large-scale parameters persist until the topology changes",
 "With the default policy all channel generations between two topology changes use the same large-scale parameters and the same path loss while their small-scale rays are redrawn, and a change of positions or states redraws them for all links. With the always-regenerate policy every generation draws new, independent large-scale parameters from the same statistics.",
 ["histories"],
 "All interleavings of topology updates (that do or do not affect propagation) and channel generations under both policies.",
 "No test generates a channel twice from one topology and relates the two.",
 [M+"system_level_channel.py", M+"lsp.py"],
 [("LSP caching", M+"system_level_channel.py:set_topology/__call__")],
 ["recorded LSP per call"])

prop("C09", "Each link uses the tabulated parameters of its scenario, band, angle and state",
 "For every scenario, band, link direction and elevation angle, each link's parameters are those of the standard's table for that scenario and band at the nearest tabulated elevation (10 to 90 degrees in steps of 10) and for that link's own LOS or NLOS state, including mixed states in one batch. The derived log-domain means and standard deviations of delay spread, angle spreads, shadow fading and Rician factor, the zenith departure offset and the cluster counts follow from exactly those entries.",
 ["inputs", "configurations"],
 "All 3 scenarios x 2 bands x 2 directions x all elevation angles (between, at and next to the rounding boundaries) x all table entries x mixed link states.",
 "The tests cover table values at exact multiples of 10 degrees with homogeneous states; rounding boundaries, mixed-state selection and the less-used entries are not covered.",
 [M+"system_level_scenario.py", M+"urban_scenario.py", M+"dense_urban_scenario.py", M+"sub_urban_scenario.py", M+"models/"],
 [("table lookup", M+"system_level_scenario.py:get_param"), ("file selection", M+"urban_scenario.py:los_parameter_filepath"), ("log statistics", M+"urban_scenario.py:_compute_lsp_log_mean_std")],
 ["scenario.get_param", "scenario.lsp_log_mean/lsp_log_std/zod_offset/num_clusters_*"])

prop("C10", "Large-scale parameters follow their log-normal laws and hard limits",
 "Over independent draws each large-scale parameter of a link is log-normal with that link's tabulated mean and standard deviation, mapped to its linear unit, and the azimuth spreads never exceed 104 degrees and the zenith spreads never exceed 52 degrees. Random shadowing of the path loss is zero-mean Gaussian in dB with the tabulated deviation of the link's state.",
 ["inputs", "configurations"],
 "All scenarios, bands, directions, elevation angles, link states and all random draws.",
 "Distribution tests on a few configurations use loose bounds; per-link (mixed-state) statistics and clipping under extreme draws are not tested.",
 [M+"lsp.py", M+"utils.py"],
 [("sampling and clipping", M+"lsp.py:LSPGenerator.__call__"), ("shadowing", M+"utils.py:compute_pathloss_basic")],
 ["LSPGenerator.__call__", "scenario.basic_pathloss"])

prop("C11", "Large-scale parameters carry the tabulated cross and spatial correlation",
 "For each link of a user without nearby users in the same state the seven normalized large-scale parameters have exactly the cross-correlation matrix given by the tables of the link's state, and every user's parameters keep unit normalized variance whatever its neighbours. For two users in the same state under one platform each parameter is correlated as exp(-d/D) with d their horizontal distance and D that parameter's tabulated correlation distance, while users in different states, links to different platforms and different batch examples are uncorrelated.",
 ["inputs", "configurations"],
 "All scenarios, bands, directions, elevation angles, state mixes, user layouts (from co-located to far apart) and all random draws.",
 "The tests assert the square-root matrix on isotropic cases; the correlations actually present in drawn parameters, for users and states that differ, are not measured.",
 [M+"lsp.py"],
 [("cross correlation", M+"lsp.py:_compute_cross_lsp_correlation_matrix"), ("spatial correlation", M+"lsp.py:_compute_lsp_spatial_correlation_sqrt")],
 ["LSPGenerator.__call__ draws"])

prop("C12", "Cluster delays and powers form a valid normalized power-delay profile",
 "For every link the cluster delays are sorted, start at zero, and scale with the link's delay spread and delay-scaling parameter (compressed by the Rician-dependent factor for LOS links only), and the cluster powers are non-negative, sum to one over exactly the tabulated number of clusters of the link's state, and follow the exponential delay law up to log-normal per-cluster shadowing of the tabulated deviation. Clusters beyond that number have zero power.",
 ["inputs", "configurations"],
 "All scenarios, bands, directions, elevations, state mixes, delay spreads and Rician factors, and all random draws.",
 "The tests check signs and sums on a few samples; the statistical law, the masking for mixed states and the LOS scaling are compared with nothing independent.",
 [M+"rays.py"],
 [("delays", M+"rays.py:_cluster_delays"), ("powers", M+"rays.py:_cluster_powers"), ("mask", M+"rays.py:_compute_clusters_mask")],
 ["RaysGenerator.__call__"])

prop("C13", "Ray angles follow the standard's angular model at both ends",
 "Within every cluster the 20 rays deviate from a common cluster angle by the cluster spread times the standard's fixed, zero-mean offset table, azimuths lie in (-180,180] and zeniths in [0,180] degrees, and the first cluster of a LOS link is centred exactly on the LOS direction. User-side cluster angles scatter around the LOS direction according to cluster power, link angle spread and Rician factor, while for satellites (160 km and above) departure-side cluster angles do not scatter.",
 ["inputs", "configurations"],
 "All scenarios, bands, directions, elevations, platform heights, state mixes, spreads, Rician factors and random draws.",
 "The tests check angle ranges and means on a few samples; the offset table, the LOS centring and the power-angle law are not asserted over the space.",
 [M+"rays.py"],
 [("azimuth", M+"rays.py:_azimuth_angles"), ("zenith", M+"rays.py:_zenith_angles"), ("offset table", M+"rays.py:RaysGenerator.__init__")],
 ["RaysGenerator.__call__"])

prop("C14", "Ray coupling, cross-polarization and initial phases are random as specified",
 "Within each cluster the arrival and departure azimuth and zenith offsets are coupled by uniformly random permutations drawn independently for the four angles and for each cluster and batch example, cross-polarization ratios are log-normal with the tabulated mean and deviation independently per ray, and the four initial phases per ray are independent and uniform over a full circle. Every call redraws them.",
 ["inputs", "configurations", "histories"],
 "All scenarios, bands, directions, elevations and state mixes, and all random draws over repeated calls.",
 "Tests only compare sums before/after shuffling and one mean; independence between angles, clusters, rays, links and calls is a property of the distribution.",
 [M+"rays.py", M+"channel_coefficients.py"],
 [("coupling", M+"rays.py:_random_coupling"), ("XPR", M+"rays.py:_cross_polarization_power_ratios"), ("phases", M+"channel_coefficients.py:_step_10")],
 ["RaysGenerator.__call__", "ChannelCoefficientsGenerator.__call__(debug=True)"])

prop("C15", "Uplink and downlink describe the same propagation with ends swapped",
 "For the same topology, the uplink channel is generated from the platform-user link data with transmitter and receiver exchanged: users transmit with the user array and orientation from the user-side angles, the platform receives with its own, and each user's delays, powers, Rician factor, shadow fading and path loss stay attached to that user. Link geometry, free-space and atmospheric losses are the same in both directions, and the array dimensions of the output follow the transmitting and receiving ends.",
 ["inputs", "configurations"],
 "All topologies with several users and batch examples (batch size, users and antennas pairwise distinct or equal), arrays, scenarios and bands in both directions.",
 "Each test fixes one direction and symmetric sizes; a mix-up of users, ends or batch axes is invisible when sizes or values coincide.",
 [M+"system_level_channel.py"],
 [("direction handling", M+"system_level_channel.py:__call__")],
 ["model call with recorded rays, LSPs and topology"])

prop("C16", "Array geometry and polarization indexing are consistent",
 "Every antenna array has rows x columns x panels (x2 for dual polarization) elements on the y-z plane, centred at the origin, with the requested element and panel spacings in wavelengths. The two polarization index sets partition the elements, co-located elements of the two polarizations share positions, slant angles are 0 for V, 90 for H, 0/90 degrees for VH and -45/+45 for cross, and invalid or overlapping layouts are rejected.",
 ["inputs", "configurations"],
 "All panel/array sizes, spacings, polarizations, patterns and carriers, for the general array and its single-antenna and single-panel shorthands.",
 "Tests construct a few arrays only as input to other tests and assert none of their geometry.",
 [M+"antenna.py"],
 [("panel", M+"antenna.py:AntennaPanel.__init__"), ("array", M+"antenna.py:PanelArray.__init__"), ("shorthands", M+"antenna.py:Antenna/AntennaArray")],
 ["PanelArray.ant_pos/ant_ind_pol1/ant_ind_pol2/ant_pol1/ant_pol2"])

prop("C17", "Element radiation patterns equal the specified laws everywhere",
 "For every direction the radiated power of the omni, 38.901, circular-aperture (38.811 section 6.4.1, radius 10 wavelengths) and co-phased dual-linear patterns equals its closed-form law, is finite, non-negative, symmetric where the law is, and peaks at boresight with the specified maximum gain. The slant angle splits it between vertical and horizontal components without changing the total power.",
 ["inputs", "configurations"],
 "All zenith/azimuth directions including poles, boresight, beam nulls and the back hemisphere, all slant angles and patterns.",
 "No test evaluates a pattern against its formula over the sphere.",
 [M+"antenna.py"],
 [("patterns", M+"antenna.py:_radiation_pattern_*"), ("slant", M+"antenna.py:AntennaElement.field")],
 ["AntennaElement.field"])

prop("C18", "Time evolution is exactly the Doppler of user and platform motion",
 "Between time samples each ray only rotates in phase at the rate given by the user velocity projected on its user-side direction plus, for platforms at or above 600 km with Doppler enabled, one common satellite Doppler per batch example bounded by the orbital speed times cos(elevation); magnitudes of single-ray paths are constant and time sample n is at n divided by the sampling frequency. A static link without satellite Doppler is time invariant, and the orbital-speed and maximum-Doppler helpers equal the circular-orbit formulas.",
 ["inputs", "configurations"],
 "All velocities, directions, elevations, heights around 600 km, carriers, sampling frequencies, sample counts, Doppler flag and link directions.",
 "Tests take one time sample or compare one helper on one configuration; the time axis of the full channel is not examined.",
 [M+"channel_coefficients.py", M+"utils.py"],
 [("Doppler phases", M+"channel_coefficients.py:_step_11_doppler_matrix"), ("satellite speed", M+"channel_coefficients.py:Topology.__init__"), ("helpers", M+"utils.py:compute_satellite_speed/compute_stallite_doppler")],
 ["model call over many time samples"])

prop("C19", "Generation is reproducible, isolated and free of side effects",
 "Re-seeding the random generators and repeating the same sequence of operations reproduces the same channels bit for bit, and different seeds give different channels. Model instances do not influence each other, and no operation modifies tensors passed in or returned earlier, or leaves a generation dependent on earlier ones beyond the documented large-scale persistence.",
 ["histories"],
 "All operation sequences over one or more live instances, seeds and interleavings.",
 "No test repeats a run or uses two live instances.",
 [M+"system_level_channel.py", M+"rays.py", M+"lsp.py", M+"channel_coefficients.py", M+"utils.py"],
 [("random sources", M+"rays.py, lsp.py, channel_coefficients.py, utils.py"), ("instance state", M+"system_level_channel.py, system_level_scenario.py")],
 ["model calls, set_topology, gen_single_sector_topology"])

prop("C20", "Graph and XLA execution agree with eager execution",
 "Topology generation, topology setting and channel generation work inside compiled functions (graph mode, and XLA mode when compatibility is enabled) for both directions and all scenarios, with results of the same shapes and types as eager execution. All deterministic results - geometry, losses, statistics, coefficients for given rays - are equal up to rounding, every execution of a compiled function draws fresh randomness, and the random results follow the same distributions.",
 ["configurations", "inputs", "histories"],
 "All scenarios, bands, directions and topologies under eager, graph and XLA execution, with repeated executions of one compiled function.",
 "All tests run eagerly; only code comments record mode-specific workarounds.",
 [M+"system_level_channel.py", M+"system_level_scenario.py", M+"utils.py", M+"channel_coefficients.py"],
 [("mode-agnostic tensor code", M+"*.py")],
 ["tf.function-wrapped calls"])

prop("C21", "LOS states are drawn with the tabulated probability or forced as requested",
 "Without a request, every outdoor link's LOS state is an independent draw with the TR 38.811 probability of its scenario at the nearest tabulated elevation, redrawn at each propagation-relevant topology change and constant in between. With a request all outdoor links take the requested state, whatever the order of updates.",
 ["inputs", "configurations", "histories"],
 "All scenarios, bands, directions, elevation angles, numbers of links, and sequences of updates with and without a request.",
 "The tests check the mean of one large drop per exact angle; per-link independence, persistence and in-between angles are not observed.",
 [M+"system_level_scenario.py", M+"urban_scenario.py", M+"dense_urban_scenario.py", M+"sub_urban_scenario.py", M+"utils.py"],
 [("LOS sampling", M+"system_level_scenario.py:_sample_los"), ("probability", M+"urban_scenario.py:los_probability"), ("Bernoulli draw", M+"utils.py:sample_bernoulli")],
 ["scenario.los"])

prop("C22", "Channel conversion utilities are exact transforms of the path list",
 "Converting path coefficients and delays to an OFDM frequency response or to discrete-time taps equals the defining sums over paths (Fourier kernel at the subcarrier frequencies, sinc kernel at the tap lags) for every input, is linear in the coefficients, and with normalization yields unit average energy per link. Subcarrier frequencies are centred and equally spaced, time grids start at zero with the given step, the tap range covers the requested delay spread, and correlation matrices are Hermitian, positive semi-definite with unit diagonal and match their closed forms.",
 ["inputs"],
 "All path counts, delays, coefficients, bandwidths, FFT sizes (odd and even), tap ranges, antennas and precisions.",
 "The repository has no test for any of these utilities.",
 [M+"utils.py"],
 [("OFDM response", M+"utils.py:cir_to_ofdm_channel"), ("taps", M+"utils.py:cir_to_time_channel"), ("grids", M+"utils.py:subcarrier_frequencies/time_frequency_vector/time_lag_discrete_time_channel"), ("correlation matrices", M+"utils.py:exp_corr_mat/one_ring_corr_mat")],
 ["utils functions"])

prop("C23", "Unsupported configurations are rejected and supported limits accepted",
 "Constructing a model outside the supported domain - carrier outside 1.9-4 GHz and 19-40 GHz, elevation outside [10,90] degrees, unknown direction, arrays of the wrong type or designed for another carrier, unknown antenna pattern or polarization, unknown topology scenario - is rejected with an error, and nothing inside the closed domain, including its exact limits, is rejected. Generating from a model before a complete topology is set is rejected.",
 ["inputs", "configurations"],
 "All constructor arguments around every domain boundary for all models, arrays and topology generators.",
 "The tests check a few far-outside values; boundary neighbours, cross-carrier arrays per argument and acceptance at limits are not covered.",
 [M+"system_level_scenario.py", M+"antenna.py", M+"utils.py", M+"system_level_channel.py"],
 [("validation", M+"system_level_scenario.py:__init__/set_topology"), ("array validation", M+"antenna.py:AntennaElement/AntennaPanel/PanelArray.__init__"), ("scenario names", M+"utils.py:set_3gpp_scenario_parameters")],
 ["constructors, set_topology"])

prop("C24", "Double precision is honoured end to end",
 "Selecting double precision, per object or globally, works for topology generation, arrays, scenarios and channel generation, returns double-precision results everywhere, and computes deterministic quantities to double accuracy - in particular carrier phases over satellite distances. Selecting single precision returns single-precision results, and both agree within single-precision accuracy.",
 ["configurations", "inputs"],
 "All models, patterns, directions, bands and topologies with each precision setting.",
 "All tests run in the default single precision.",
 [M+"utils.py", M+"system_level_scenario.py", M+"channel_coefficients.py", M+"antenna.py", M+"lsp.py", M+"rays.py"],
 [("precision plumbing", M+"*.py: rdtype/cdtype uses")],
 ["dtypes and values of all public results"])

prop("C25", "Total received power matches the link budget on average",
 "Averaged over the random rays and phases, the power received between single isotropic elements equals the link's gain (path loss and shadow fading), in uplink and downlink, for LOS and NLOS links and at all time samples. No processing stage creates or loses power on average, whichever the number of clusters, rays, sub-clusters and sampling times.",
 ["inputs", "configurations"],
 "All scenarios, bands, directions, elevation angles, states, Rician factors and random draws.",
 "The tests never integrate power over the complete chain; a lost ray group, a mis-scaled LOS component or a dropped cluster stays within their bounds.",
 [M+"channel_coefficients.py", M+"rays.py", M+"system_level_channel.py"],
 [("power split over rays and sub-clusters", M+"channel_coefficients.py:_step_11_nlos/_step_11_reduce_nlos"), ("Rician combination", M+"channel_coefficients.py:_step_11"), ("normalization", M+"rays.py:_cluster_powers")],
 ["model call output ensemble"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
