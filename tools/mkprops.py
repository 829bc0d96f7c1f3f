#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os

P = []

def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={"over": over, "text": text},
                  why_tests_cant=why, anchors=a))

O = "OpenNTN/"

prop("C01", "Antenna element patterns: specified gain, slant only redistributes power",
 "For every direction and polarization slant, the power of an antenna element's field equals the directional gain its named pattern specifies (omni, 3GPP 38.901, circular aperture, dipole-like patch), is finite, and is largest at boresight. "
 "The slant angle only splits that power between the zenith and azimuth components as the 3GPP polarization model prescribes.",
 ["inputs", "configurations"], "all zenith/azimuth directions, all four patterns, all slant angles, all legal carrier frequencies",
 "Tests use one pattern (38.901, single V) at one carrier and only feed it back through the class itself; no test compares a gain with its formula or tries omni, aperture or patch patterns, whose domain is a continuum of directions.",
 [O+"antenna.py"], [("AntennaElement pattern functions and polarization model", O+"antenna.py:AntennaElement")],
 observe=["AntennaElement.field", "PanelArray.ant_pol1/ant_pol2"])

prop("C02", "Panel arrays: element count, grid geometry and polarization bookkeeping",
 "For every panel configuration the array reports rows x columns x panels x polarizations antennas, placed on the requested uniform grid centred on the origin with the requested element and panel spacings in wavelengths. "
 "Every antenna index belongs to exactly one polarization direction, dual-polarized elements come in co-located pairs, and the slants are those of the requested polarization type (V, H, VH or cross).",
 ["configurations"], "all numbers of rows/columns/panels, spacings, polarizations, polarization types and carriers",
 "Tests only build 1x1 single-V panels; indexing and centring only matter for multi-element, multi-panel, dual-polarized arrays.",
 [O+"antenna.py"], [("AntennaPanel element placement", O+"antenna.py:AntennaPanel"), ("PanelArray panel placement and polarization index lists", O+"antenna.py:PanelArray")],
 observe=["PanelArray properties", "AntennaPanel.ant_pos"])

prop("C03", "Exactly the supported configurations are accepted",
 "A channel or scenario is constructed if and only if the direction is uplink or downlink, the carrier lies in the S band (1.9-4 GHz) or Ka band (19-40 GHz), the elevation angle lies in 10-90 degrees and both arrays are panel arrays of the same carrier. "
 "Antenna, panel and array constructors likewise reject every unsupported pattern, polarization, or spacing with an error, and a first topology that omits any required piece is refused.",
 ["configurations", "inputs"], "all carriers, elevations, directions and array pairs, on both sides of every limit",
 "Tests probe a handful of hand-picked values per limit; the accepted set is a union of continuous intervals combined with other options.",
 [O+"system_level_scenario.py", O+"antenna.py"], [("constructor assertions", O+"system_level_scenario.py:SystemLevelScenario.__init__"), ("argument assertions", O+"antenna.py"), ("required-argument assertions", O+"system_level_scenario.py:set_topology")])

prop("C04", "Link geometry: slant range, planar distances and LoS pointing angles",
 "For every placement of terminals and station, the link distance is the curved-earth slant range for the configured elevation and station height, planar distances (station-terminal and terminal-terminal) are Euclidean, and indoor and outdoor parts are non-negative and add up, with no indoor part outdoors. "
 "The reported LoS departure direction points from the station to the terminal and the arrival direction is exactly opposite.",
 ["inputs", "configurations"], "all terminal/station positions, heights, elevations, batch sizes and numbers of terminals",
 "Tests never assert a distance or LoS angle; they only pass them through.",
 [O+"system_level_scenario.py"], [("_compute_distance_2d_3d_and_angles", O+"system_level_scenario.py"), ("_sample_indoor_distance", O+"system_level_scenario.py")],
 observe=["scenario.distance_2d/_3d/_in/_out", "scenario.los_aod/aoa/zod/zoa"])

prop("C05", "Each link uses the parameter table of its own environment and state",
 "For every link, every tabulated parameter, the number of clusters and the large-scale means and deviations are those of the 3GPP table for the configured environment, link direction, frequency band, the elevation rounded to the nearest tabulated ten degrees, and that link's own LoS/NLoS state. "
 "A link's values never depend on the state of another link.",
 ["configurations", "inputs"], "3 environments x 2 directions x 2 bands x elevations in [10,90] x every mix of LoS states in a batch",
 "Tests compare log-means for a few elevations of single-state batches; wrong-table selection for one band/direction/elevation or a mix-up in mixed LoS/NLoS batches is not reached.",
 [O+"system_level_scenario.py", O+"dense_urban_scenario.py", O+"urban_scenario.py", O+"sub_urban_scenario.py", O+"models/"],
 [("get_param / num_clusters_*", O+"system_level_scenario.py"), ("los_parameter_filepath / nlos_parameter_filepath / _compute_lsp_log_mean_std", O+"urban_scenario.py and siblings")])

prop("C06", "LoS state: forced when requested, tabulated probability otherwise, indoor never",
 "When a LoS state is requested every outdoor link has exactly that state; otherwise each outdoor link is in LoS with the tabulated probability of its environment at the nearest tabulated elevation, independently per link. "
 "An indoor terminal is never in LoS, whatever is requested.",
 ["inputs", "configurations", "histories"], "all environments, directions, bands, elevations, indoor patterns, requested states",
 "Tests sample two bands' probabilities for outdoor downlink terminals only; indoor terminals, mixes and forced states are untested.",
 [O+"system_level_scenario.py", O+"utils.py"], [("_sample_los", O+"system_level_scenario.py"), ("los_probability", O+"urban_scenario.py and siblings"), ("sample_bernoulli", O+"utils.py")])

prop("C07", "Large-scale parameters: distribution, cross- and spatial correlation, caps",
 "Sampled large-scale parameters (delay spread, four angular spreads, shadow fading, K-factor) have, per link, the log-normal mean and deviation of the link's table, the tabulated cross-correlations, and across terminals of the same state the exponential correlation of the tabulated correlation distance. "
 "All values are finite and non-negative (positive wherever the table gives a spread), azimuth spreads never exceed 104 degrees, zenith spreads never exceed 52 degrees, and different batch entries, and links to different stations, are independent.",
 ["inputs", "configurations"], "all environments/directions/bands/elevations, terminal layouts and LoS mixes",
 "Tests check moments and correlation matrices for selected single-state setups; mixed-state batches, terminals at arbitrary distances and caps are open.",
 [O+"lsp.py"], [("cross-LSP correlation square root", O+"lsp.py:_compute_cross_lsp_correlation_matrix"), ("spatial correlation square root", O+"lsp.py:_compute_lsp_spatial_correlation_sqrt"), ("LSPGenerator.__call__", O+"lsp.py")])

prop("C08", "Cluster delays and powers follow the 3GPP generation rules",
 "For every large-scale parameter set, cluster delays start at zero and are non-decreasing and finite, unused clusters carry no power, and the powers used for the coefficients are non-negative and sum to one on each link. "
 "Powers relate to delays, delay spread and K-factor by the 3GPP exponential law: its mean decay, its per-cluster shadowing, the LoS delay scaling and the LoS share of the first cluster; they are drawn independently for every link.",
 ["inputs", "configurations"], "all delay spreads, K-factors, LoS mixes, environments and elevations (including one-link and many-link batches)",
 "Tests check means of delays and weak range facts on powers for fixed setups; the law itself must hold for every DS/K value and every LoS mix.",
 [O+"rays.py"], [("_cluster_delays", O+"rays.py"), ("_cluster_powers", O+"rays.py"), ("_cluster_mask", O+"rays.py")])

prop("C09", "Ray angles, coupling and cross-polarization ratios obey the 3GPP rules",
 "For every parameter set, azimuths lie in (-180,180] and zeniths in [0,180] degrees, rays spread around their cluster direction by the tabulated symmetric offsets times the tabulated cluster spread, the first cluster of a LoS link points along the LoS direction, and the satellite side has (almost) no angular spread around the LoS direction. "
 "Random coupling only permutes rays inside their own cluster, and cross-polarization ratios are positive with the tabulated log-normal distribution, drawn independently for every ray of every link.",
 ["inputs", "configurations"], "all angular spreads, K-factors, geometries, LoS mixes, environments and elevations",
 "Tests assert angle ranges and that a shuffle changes something; alignment, offsets, permutation-only coupling and satellite-side spread for all inputs are not asserted.",
 [O+"rays.py"], [("_azimuth_angles / _zenith_angles", O+"rays.py"), ("_random_coupling / _shuffle_angles", O+"rays.py"), ("_cross_polarization_power_ratios", O+"rays.py")])

prop("C10", "Channel coefficients equal the 3GPP coefficient equations",
 "For every set of rays, phases, K-factors, LoS states, arrays, orientations and velocities, the path coefficients and delays equal those of the 3GPP coefficient equations: dual-polarized field products with cross-polarization matrix and ionospheric polarization rotation, array phases, Doppler phases, sub-cluster split of the two strongest clusters and Ricean combination with the LoS ray on the first path. "
 "The random initial phases are uniform and independent for every ray, polarization pair and link, and the result for one link never depends on the other links in the batch.",
 ["inputs", "configurations"], "all ray sets, array types (single/dual, any slant, multi-panel), orientations, velocities, station heights above and below 600 km, either moving end, with and without sub-clustering",
 "Tests check the internal steps for one downlink configuration with single-antenna vertical arrays; dual polarization, multi-element phases, uplink, HAPS heights and combinations are unreached.",
 [O+"channel_coefficients.py"], [("ChannelCoefficientsGenerator.__call__ and _step_11_*", O+"channel_coefficients.py")])

prop("C11", "Orientation transforms are proper rotations consistent with the field model",
 "For every orientation, rotating array elements is a proper rotation (lengths, angles and handedness preserved, and the identity for zero orientation), and converting directions to the local frame and back is consistent with it. "
 "Rotating the whole link (both arrays, all directions) leaves the received power unchanged, and re-expressing a field in the global frame never changes its power.",
 ["inputs"], "all orientations (including gimbal-lock and axis-aligned ones) and all directions including poles",
 "Tests compare a few rotations against a copy of the same formulas; degenerate orientations and invariances over the continuum are not covered.",
 [O+"channel_coefficients.py"], [("_forward_rotation_matrix, _gcs_to_lcs, _compute_psi, _l2g_response, _rot_pos", O+"channel_coefficients.py")])

prop("C12", "Path loss components follow the 3GPP link-budget formulas",
 "For every link, free-space loss equals the standard formula of slant range and carrier, NLoS links add the tabulated clutter loss, gas loss equals the zenith attenuation of the atmosphere for the configured pressure, temperature and humidity scaled by the elevation, and scintillation is the ionospheric term below 6 GHz (1.1 dB at 4 GHz, scaled with the carrier to the power -1.5, over the square root of two) or the tropospheric term of ITU-R P.618 above. "
 "All components are finite and non-negative apart from random shadowing, whose deviation is the tabulated one, and the total is their sum.",
 ["inputs", "configurations"], "all carriers, elevations, heights, weather parameters, environments, LoS mixes",
 "Tests bound gas, scintillation and free-space terms by ranges at fixed carriers; the formulas over the continuum of carrier, elevation and weather are not compared with a reference.",
 [O+"utils.py", O+"lsp.py"], [("compute_pathloss_*", O+"utils.py"), ("sample_pathloss", O+"lsp.py")])

prop("C13", "Large-scale gain is applied exactly once, exactly when enabled",
 "A link's coefficients are scaled by the square root of its path gain and shadow fading and by nothing else, each link by its own value and in both directions. "
 "With path loss disabled no path loss is applied; with shadow fading disabled the gain contains no random shadowing at all; with both disabled the coefficients keep unit average power per link.",
 ["configurations", "inputs"], "both directions, all enable-flag combinations, all batches and LoS mixes",
 "The one step-12 test uses one downlink configuration with known inputs; flags and uplink transposition are not exercised.",
 [O+"system_level_channel.py", O+"utils.py", O+"lsp.py"], [("_step_12", O+"system_level_channel.py"), ("compute_pathloss_basic", O+"utils.py"), ("sample_pathloss", O+"lsp.py")])

prop("C14", "Channel responses: documented layout, finite, and uplink/downlink consistent",
 "For every configuration and topology, a channel call returns finite coefficients and delays in the documented receiver-transmitter layout for the link direction, with non-negative, ascending delays that start at zero, and the call with and without a batch-size argument behave alike. "
 "Uplink and downlink describe the same links: swapping direction swaps the roles of arrays, orientations and angles, and each terminal's response follows its own geometry.",
 ["configurations", "inputs"], "all environments, directions, bands, elevations, arrays, batch sizes, terminal counts, heights, numbers of samples",
 "No test calls the complete channel in uplink or with multi-antenna arrays; most tests look only at internal samplers.",
 [O+"system_level_channel.py", O+"dense_urban.py", O+"urban.py", O+"sub_urban.py"], [("SystemLevelChannel.__call__", O+"system_level_channel.py")])

prop("C15", "Topology histories: state is exactly what the calls so far determine",
 "After any sequence of topology updates and channel calls, unspecified arguments keep their previous values, specified ones take effect immediately, and the reported geometry, LoS state and path loss are those of the current values. "
 "Large-scale parameters are redrawn when positions, indoor states or LoS requests are given, stay fixed across calls and other updates, and are redrawn on every call when that mode is selected; an update that is rejected for missing pieces changes nothing.",
 ["histories"], "all sequences of partial topology updates (any subset of arguments, changing batch sizes and terminal counts) interleaved with channel calls",
 "Tests set a topology once per object; reuse, partial updates and cached samplers only matter over histories.",
 [O+"system_level_scenario.py", O+"system_level_channel.py", O+"lsp.py", O+"rays.py"], [("set_topology", O+"system_level_scenario.py"), ("set_topology / __call__", O+"system_level_channel.py"), ("topology_updated_callback", O+"lsp.py, rays.py")])

prop("C16", "Topology generators drop terminals where and how they were asked to",
 "Generated topologies place every terminal inside the requested sector and distance limits (each one of every batch entry dropped at random), relative to the requested satellite height and elevation, all outdoors (indoor drops are documented as not supported), with speeds and heights within limits, and arrays oriented as documented; the result is directly usable as a topology. "
 "Scenario defaults are used exactly where the caller did not override them.",
 ["inputs", "configurations"], "all scenario names, elevations, heights, cell radii, distance/speed/height overrides, batch sizes and terminal counts",
 "Tests use the generator only as an input source with default overrides and assert nothing about the placement.",
 [O+"utils.py"], [("gen_single_sector_topology, generate_uts_topology, drop_uts_in_sector, set_3gpp_scenario_parameters, relocate_uts", O+"utils.py")])

prop("C17", "Time- and frequency-domain channels are faithful views of the impulse response",
 "For every impulse response, the frequency-domain channel equals the sum over paths of coefficient times the delay phase at each subcarrier, the discrete-time channel equals the sinc-interpolated taps, and the two agree through a Fourier transform; normalization makes the average energy one and otherwise changes only scale. "
 "Subcarrier and lag grids are the documented centred ones.",
 ["inputs"], "all impulse responses (paths, antennas, terminals, time samples), bandwidths, FFT sizes, tap ranges",
 "No test touches these conversions.",
 [O+"utils.py"], [("cir_to_ofdm_channel, cir_to_time_channel, time_to_ofdm_channel, subcarrier_frequencies, time_lag_discrete_time_channel, time_frequency_vector, time_to_ofdm_channel", O+"utils.py")])

prop("C18", "Time evolution is pure Doppler of terminal and satellite motion",
 "Over time every ray only rotates in phase at its Doppler rate: coefficients are constant in time when nothing moves (terminals at rest and the satellite's own Doppler switched off or absent), sampling faster or longer never changes the coefficients at common instants, and frequency shifts never exceed those of the terminal's speed plus the satellite's line-of-sight speed. "
 "The satellite adds a Doppler shift only at orbital heights (600 km and above), bounded by the line-of-sight component of the circular orbital speed (orbital speed times R/(R+h) times the cosine of the elevation).",
 ["inputs", "configurations"], "all velocities, heights, elevations, carriers, sampling grids",
 "Tests recompute the Doppler exponent with a copy of the code for one setup; bounds and invariances over grids, heights and the disable switch are not asserted.",
 [O+"channel_coefficients.py", O+"utils.py"], [("_step_11_doppler_matrix", O+"channel_coefficients.py"), ("compute_satellite_speed", O+"utils.py")])

prop("C19", "Tapped delay line model: profile, normalization, Doppler and correlation",
 "For every model, delay spread, speed and antenna configuration, the tap delays are the tabulated ones scaled by the delay spread, the taps have the tabulated average powers normalised to one, the LoS tap (where the model has one) has the tabulated K-factor, and responses are finite. "
 "Spatial correlation at transmitter and receiver is the requested one, and each tap's phase changes no faster than the maximum Doppler shift.",
 ["inputs", "configurations"], "all TDL models, delay spreads, speed ranges, array sizes and correlation matrices",
 "No test instantiates this model.",
 [O+"tdl.py", O+"models/TDL-*.json"], [("TDL.__call__, _load_parameters", O+"tdl.py")])

prop("C21", "Seeded reproducibility and graph/eager agreement",
 "With the same seeds and inputs, building and calling a channel twice gives bit-identical results, and a compiled (graph) call follows the same model as the eager call: same layout, delays and power statistics, and with fresh randomness on every execution. "
 "Results of one channel object are never affected by another object's existence or calls.",
 ["inputs", "histories", "configurations"], "all environments, directions, seeds, repeated and interleaved calls",
 "Tests never compare two runs or use compiled mode.",
 [O+"system_level_channel.py", O+"channel_coefficients.py", O+"rays.py", O+"lsp.py", O+"utils.py"], [("random draws through the framework generators", O+"*")])

prop("C22", "The requested numeric precision is honoured everywhere",
 "A channel, array or scenario created with single or double precision works, returns coefficients, delays and properties of exactly that precision, and at double precision deterministic quantities agree with their single-precision values to single-precision accuracy.",
 ["configurations"], "both precisions x environments, directions, bands, array patterns, heights",
 "All tests run at the default precision.",
 [O+"system_level_scenario.py", O+"channel_coefficients.py", O+"utils.py", O+"lsp.py", O+"rays.py", O+"antenna.py"], [("rdtype/cdtype use throughout", O+"*")])

prop("C23", "Unit, angle and sampling helpers are exact",
 "For every input, degree-radian conversion round-trips, angle wrapping returns the congruent angle in [0,360), correlation-matrix helpers return Hermitian positive-definite unit-diagonal matrices of the documented form, and Bernoulli sampling has the requested probability with certain outcomes at 0 and 1.",
 ["inputs"], "all finite angles, probabilities, correlation parameters, sizes",
 "No test targets the helpers.",
 [O+"utils.py"], [("deg_2_rad, rad_2_deg, wrap_angle_0_360, sample_bernoulli, exp_corr_mat, one_ring_corr_mat", O+"utils.py")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=True) + "\n")
print(len(P), "properties")
