"""Source of properties.jsonl and MANIFEST.json (run tools/gen.py after editing)."""

P = []


def prop(id, title, statement, over, quant, why, files, mech, observe, technique, note, state=None, hook=False):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, state=state, hook=hook))


NOTE = ('Sampled executions of the real code judged by independent oracles; nothing is proved. Tolerances are set several times above what '
        'the unchanged code shows on many seeds. ')

prop('P01', 'Focal-plane transforms compute the Fraunhofer integral on their grids',
     'The matrix Fourier transforms between a pupil plane and a focal plane return, at every sample, the discretised Fraunhofer integral of the input field '
     'at the stated wavelength, focal length, sampling steps and centering convention, in both axes independently. They are linear, leave their input '
     'unchanged, conserve energy on a full-band grid, and two in a row reproduce the field rotated by 180 degrees about the array centre.',
     ['inputs'], 'Any complex field, any odd or even and rectangular size, any unequal horizontal and vertical sampling, wavelength, focal length and centering.',
     'Tests use a few symmetric fields on square grids with equal steps, where swapped axes, conjugation and centering slips cancel.',
     ['falco/prop.py'], [('mft_p2f', 'falco/prop.py'), ('mft_f2p', 'falco/prop.py'), ('get_fft_coordinates', 'falco/fftutils.py')],
     ['return values of falco.prop.mft_p2f and mft_f2p'],
     'online value monitor on random executions vs. an independently coded diffraction integral', NOTE)
prop('P02', 'Free-space propagation and relays are reversible, composable and exact',
     'Propagating a field between parallel planes gives each spatial frequency the paraxial phase of the distance travelled, so energy is conserved, '
     'distances add, negative distances undo positive ones and zero distance changes nothing; a Gaussian beam follows its analytic evolution. Each optical relay '
     'rotates the field by 180 degrees about the array centre of the chosen centering, and an even number of relays is the identity; inputs are never modified.',
     ['inputs'], 'Any complex field, size, wavelength, distance of either sign, relay count and centering.',
     'Tests propagate single fields over single distances; composition, reversibility and isotropy are statements about all fields and all distances.',
     ['falco/prop.py'], [('ptp', 'falco/prop.py'), ('relay', 'falco/prop.py')], ['return values of falco.prop.ptp and relay'],
     'metamorphic and analytic monitors on random executions', NOTE)
prop('P03', 'Vortex mask propagation is linear, self-consistent and nulls on-axis light',
     'Propagation from a pupil through a vortex focal-plane mask to the next pupil is linear in the field, moves all light of a clear circular pupil outside its '
     'geometric image for every nonzero even charge with the analytic amplitude and phase of an ideal vortex, is transparent for charge zero, mirrors when the charge changes sign, and turns a rotated input '
     'into a rotated output with the phase of the charge. Its reverse-mode counterpart used for gradients is its exact adjoint.',
     ['inputs'], 'Any complex pupil field, charge, beam size and window choice.',
     'Tests check one charge with one pupil; adjointness and covariance are universally quantified over fields.',
     ['falco/prop.py'], [('mft_p2v2p', 'falco/prop.py'), ('gen_tukey_for_vortex', 'falco/prop.py')],
     ['return values of the vortex propagators'], 'adjoint/linearity/analytic-solution monitors on random executions', NOTE)
prop('C01', 'Configuration objects are one mapping under every access style',
     'A value assigned to a configuration object by attribute, by index, by merging or at construction is the value every access style returns afterwards, and '
     'names never assigned are reported missing. Deep copies and pickles equal the original and are independent of it, and separately constructed objects, default sections included, never share mutable state.',
     ['histories'], 'Any sequence of attribute writes, index writes, merges, deletions, deep copies, pickles and lazy expressions on every configuration class.',
     'Tests read a handful of fixed attributes; aliasing and stale views only show after particular operation sequences.',
     ['falco/config'], [('Object', 'falco/config/__init__.py'), ('ModelParameters', 'falco/config/ModelParameters.py')],
     ['attribute and index reads on configuration objects after each operation'], 'history monitor against a reference dictionary model', NOTE)
prop('C02', 'YAML configurations load as written, with live lazy expressions',
     'Loading a YAML configuration gives exactly the literals written, and every tagged expression evaluates against the current configuration, so reassigning a value changes everything defined from it. '
     'Circular definitions are reported as errors rather than looping, failing expressions raise, and loading one document never changes another document, the caller\'s context, or how other YAML in the process is parsed.',
     ['inputs', 'histories'], 'Any nested document with literals and any acyclic (or cyclic) dependency graph of expressions, followed by any reassignments, copies and further loads.',
     'Tests load fixed files; dependency order, re-evaluation after mutation and cross-document isolation need generated graphs and histories.',
     ['falco/config'], [('from_yaml / Eval tags', 'falco/config/ModelParameters.py'), ('lazy evaluation', 'falco/config/Object.py')],
     ['attribute reads on loaded configurations'], 'history monitor against an independent evaluator of the generated dependency graph', NOTE)
prop('U01', 'Array geometry helpers keep the centre convention and the values',
     'Padding, cropping, off-centre cropping, binning, coordinate-axis and radial-grid helpers agree with the single convention that the array centre is sample N//2 for pixel centering (and half a sample beyond for interpixel centering of even arrays): '
     'the centre sample stays the centre, every overlapping value is copied unchanged with its data type, everything else is the fill value, and inputs are not modified. Small numeric helpers (even/odd ceilings, powers of two, polar conversion, trigonometry in degrees) return their documented values.',
     ['inputs'], 'Any array shape (odd, even, rectangular, one pixel), data type, target size, centre position and chain of calls.',
     'Parity and off-array corner cases are combinatorial; tests touch a few sizes.',
     ['falco/util.py'], [('pad_crop', 'falco/util.py'), ('crop/offcenter_crop', 'falco/util.py'), ('bin_downsample', 'falco/util.py'), ('create_axis/radial_grid', 'falco/util.py')],
     ['return values of the falco.util helpers'], 'value monitor against an index-level reference model', NOTE)
prop('U02', 'Argument validators accept exactly what they document',
     'Each argument validator returns a valid value unchanged and raises the caller\'s chosen exception for every invalid one, for scalars of every Python and NumPy type, arrays of every dimensionality, strings and containers. Misusing a validator itself is reported as an error.',
     ['inputs'], 'Every validator with every kind of Python, NumPy and container value.',
     'The accept/reject boundary is a statement about all value kinds, including zero, infinities, booleans, complex numbers and 0-d arrays.',
     ['falco/check.py'], [('real_scalar .. threeD_array', 'falco/check.py'), ('centering', 'falco/check.py')],
     ['return or exception of each falco.check function'], 'exhaustive value-pool monitor against a specification table', NOTE)
prop('M01', 'Analytic masks equal the pixel coverage of their geometry',
     'Simple pupils and Lyot stops, ellipses, annular and bowtie focal-plane masks, bowtie Lyot stops and DM stops have the value of their geometry at every pixel clearly inside or outside it and its covered fraction at edge pixels, for the requested size, shear, clocking, stretch, struts and magnification. '
     'Transmissions stay between 0 and 1, arrays are as large as documented, and options or input arrays are never modified.',
     ['inputs'], 'Any resolution, centering, dimensions, offsets, rotations, strut sets and opening angles.',
     'Tests check sums or single shears; a pixel-level statement over all parameters needs an independent geometric model.',
     ['falco/mask.py', 'falco/proper/prop_ellipse.py', 'falco/proper/prop_irregular_polygon.py', 'falco/proper/prop_rectangle.py'],
     [('falco_gen_pupil_Simple', 'falco/mask.py'), ('falco_gen_ellipse', 'falco/mask.py'), ('gen_annular_fpm / gen_bowtie_fpm / gen_bowtie_lyot_stop', 'falco/mask.py'), ('falco_gen_DM_stop', 'falco/mask.py')],
     ['returned mask arrays'], 'value monitor against a supersampled geometric model', NOTE)
prop('M02', 'Telescope pupils shift, turn, flip, scale and pad rigidly',
     'Roman and LUVOIR pupil and Lyot-stop generators return the nominal aperture rigidly transformed by the requested shear, clocking, 180-degree flip or magnification, in both centering conventions, and padding or widening an obscuration only removes light. '
     'Transmissions stay within 0 and 1, the open area does not depend on resolution, and one call never affects another.',
     ['inputs'], 'Any resolution, centering and transformation amounts of each design, and any sequence of calls.',
     'Tests check whole-pixel shears at one resolution for a few options.',
     ['falco/mask.py'], [('falco_gen_pupil_Roman_CGI_20200513', 'falco/mask.py'), ('falco_gen_pupil_WFIRST_CGI_180718', 'falco/mask.py'), ('falco_gen_pupil_LUVOIR_A_final', 'falco/mask.py'), ('falco_gen_pupil_LUVOIR_B', 'falco/mask.py')],
     ['returned mask arrays'], 'metamorphic monitor: transformed call vs. transformed nominal array', NOTE)
prop('M03', 'Dark-hole masks, zones, coordinates and spatial weights match their region',
     'A software dark-hole mask selects exactly the focal-plane samples inside the requested region (shape, inner and outer radius, opening angle, side, clocking, offsets, centering) on coordinates that match the requested sampling, and the default field of view never cuts the region. '
     'Dark-hole set-up gives the union of all zones for correction and scoring, consistent pixel counts and indices, and spatial weights that equal the product of the requested zones\' factors.',
     ['inputs', 'configurations'], 'Any shape, side name, radii, angles, offsets, centering, sampling, field of view and number of zones.',
     'Tests check areas and symmetric shifts of a few shapes.',
     ['falco/mask.py', 'falco/setup.py'], [('falco_gen_SW_mask', 'falco/mask.py'), ('falco_configure_dark_hole_region', 'falco/setup.py'), ('falco_set_spatial_weights', 'falco/setup.py')],
     ['returned mask and axes; dark-hole fields of the fleshed-out configuration'], 'value monitor against pixel-by-pixel region predicates', NOTE)
prop('S01', 'Set-up derives consistent wavelengths, weights, modes, planes and stops',
     'Fleshing out a configuration gives sub-bandpass centres and wavelengths spanning exactly the requested band with weights that sum to one and are placed symmetrically, a table that reaches every wavelength, and exactly the weighted control modes requested, each with its own weight. '
     'Plane samplings, coordinates, padded sizes, DM stops and cropped Lyot stops agree with the requested resolutions and diameters and never lose light or wrap around.',
     ['configurations'], 'Any numbers of sub-bandpasses, wavelengths, Zernike modes, stars, resolutions, centering and coronagraph type.',
     'Tests run fixed example configurations.',
     ['falco/setup.py'], [('falco_set_spectral_properties', 'falco/setup.py'), ('falco_set_jacobian_modal_weights', 'falco/setup.py'), ('flesh_out_workspace', 'falco/setup.py')],
     ['fields of the fleshed-out configuration'], 'invariant monitor on generated configurations', NOTE)
prop('J01', 'The control Jacobian is the derivative of the compact model',
     'For every control mode and every actuator in use, the control Jacobian column equals the derivative of the compact model\'s dark-hole field with respect to that actuator\'s voltage (times its control weight), whatever the coronagraph, DM orientation, alignment and stops, relays, Zernike mode, star and wavelength. '
     'Tied actuators carry their group\'s combined response, slaved, dead and unused ones are zero, and computing it changes no command.',
     ['configurations', 'inputs'], 'Any supported coronagraph and optical configuration, DM command, control mode and actuator.',
     'Tests compare two or three columns of single default configurations with loose tolerances.',
     ['falco/model', 'falco/dm.py'], [('jacobian', 'falco/model/models.py'), ('lyot / vortex Jacobians', 'falco/model/jacobians.py'), ('gen_poke_cube', 'falco/dm.py')],
     ['falco.model.jacobian output vs falco.model.compact'], 'finite-difference monitor over randomly generated configurations', NOTE)
prop('J02', 'Gradient-based control gets the true cost and its true gradient',
     'The cost used by gradient-based control equals the weighted dark-hole energy predicted by the compact model plus the command penalty, and its gradient equals the derivative of that cost for every actuator, for every coronagraph and DM geometry it accepts. '
     'Dead actuators get zero gradient and evaluation leaves the DM commands as they were.',
     ['configurations', 'inputs'], 'Any supported configuration, command change, penalty, measured field and actuator.',
     'Tests check one configuration per coronagraph; orientation, stops, sampling changes and mode sums only break in combination.',
     ['falco/model/models.py', 'falco/diff_dm.py', 'falco/prop.py'], [('compact_reverse_gradient', 'falco/model/models.py'), ('dm model render / render_backprop', 'falco/diff_dm.py')],
     ['cost and gradient returned by compact_reverse_gradient'], 'finite-difference monitor over randomly generated configurations', NOTE)

prop('J03', 'Full and compact models compute the stated optical train',
     'At equal resolution the full and compact models return the same final field, and both equal the field obtained by propagating the source through the configured pupil, DMs, stops, apodizer, mask, Lyot stop and relays in order, for each wavelength, star, source offset and Zernike mode. '
     'The field is linear in the entrance-pupil field, normalisation makes the reference off-axis source peak at one, repeated calls agree, and an unocculted source appears at its offset in units of the central wavelength over the diameter. '
     'Off-axis images and throughput are the band-weighted intensities of that model.',
     ['configurations', 'inputs'], 'Any supported coronagraph, resolution, centering, relays, distances, DM commands, stops, stars, wavelengths and source positions.',
     'Tests compare scalar metrics of a few default runs; an ordering, sign or sampling error that leaves the contrast plausible goes unseen.',
     ['falco/model/models.py', 'falco/imaging.py'], [('full', 'falco/model/models.py'), ('compact', 'falco/model/models.py'), ('calc_psf_norm_factor', 'falco/imaging.py'), ('calc_thput', 'falco/imaging.py')],
     ['fields returned by falco.model.full and compact; normalisation factors; throughput'],
     'differential monitor: full vs compact vs independent dense-matrix optical model, plus metamorphic laws', NOTE)

prop('D01', 'DM surface is the superposition of aligned influence functions',
     'The surface of a deformable mirror equals the sum over its actuators of commanded height times the influence function, placed according to orientation, offset, clocking, tilt, sign, spacing and centering, for any output sampling and array size, and for both the standard and the differentiable surface model. '
     'The surface is linear in the commands, and the per-actuator influence-function cube and its bounding boxes used for control describe that same surface.',
     ['inputs', 'configurations'], 'Any DM geometry, alignment, gain map, command, sampling and array size.',
     'Tests compare a few shifts and symmetric commands; sign, axis and half-pixel errors cancel in them.',
     ['falco/dm.py', 'falco/diff_dm.py'], [('gen_surf_from_act', 'falco/dm.py'), ('gen_poke_cube', 'falco/dm.py'), ('dm_init_falco_wrapper', 'falco/diff_dm.py')],
     ['surface arrays and influence-function cube'], 'value monitor against an independent spline superposition of influence functions', NOTE)

prop('D02', 'DM commands obey limits, ties, pins, dead actuators and hardware curves',
     'Enforcing the command constraints keeps every total command (bias plus relative command) within its limits, gives tied actuators one value, holds pinned actuators at their pinned values and dead ones fixed, limits neighbouring actuators to the allowed difference when asked, and changes nothing that already complies. '
     'Quantised commands are multiples of the least significant bit by the chosen rounding rule, and voltages convert to surface heights with the chosen gain curve, so that the surface made is that of the quantised, constrained command.',
     ['inputs', 'configurations'], 'Any command map, bias map, limits, groups of tied actuators, pinned and dead actuators, neighbour rule, rounding rule and gain curve.',
     'Tests enforce single hand-made maps; combinations of constraints, non-zero biases, edge actuators and diagonals go unseen.',
     ['falco/dm.py'], [('enforce_constraints', 'falco/dm.py'), ('apply_neighbor_rule', 'falco/dm.py'), ('discretize_surf', 'falco/dm.py'), ('gen_surf_from_act', 'falco/dm.py')],
     ['DM commands after enforcement; surfaces made from them'], 'invariant monitor on random command maps against independent constraint predicates', NOTE)
prop('D03', 'Commands fitted to a surface reproduce that surface',
     'Fitting deformable-mirror commands to a requested smooth surface returns commands whose surface is the requested one, for any mirror orientation, offset, clocking, tilt, influence-function sign, centering and array sampling, and for both the direct and the iterative fitting method. '
     'Commands fitted to an actuator-resolution surface reproduce that surface when convolved with the influence function.',
     ['inputs', 'configurations'], 'Any mirror geometry and alignment, any surface the mirror can make, any array sampling.',
     'Tests fit one symmetric surface; a swapped axis or sign in the inverse mapping cancels there.',
     ['falco/dm.py'], [('fit_surf_to_act', 'falco/dm.py'), ('fit_surf_with_dm_lsq', 'falco/dm.py')],
     ['fitted commands and their surfaces'], 'round-trip monitor: surface -> commands -> surface on random mirrors', NOTE)
prop('X01', 'Parallel execution gives what serial execution gives',
     'Jacobians, images, normalisation factors, field estimates, sensitivities and model-based grid searches computed with parallel workers equal those computed in serial, whatever the number of workers, the order in which they finish, and the options in use. '
     'Results are combined into the right slots with the right weights, and the caller\'s model and DM commands end as they would in serial.',
     ['schedules', 'configurations'], 'Any number of workers, any completion order, any supported configuration.',
     'Tests run one parallel case with default timing; a mis-slotted result only shows when workers finish out of order or parts differ.',
     ['falco/imaging.py', 'falco/model', 'falco/est.py', 'falco/ctrl.py', 'falco/zern.py'],
     [('get_summed_image', 'falco/imaging.py'), ('jacobian', 'falco/model/models.py'), ('perfect', 'falco/est.py'), ('_grid_search_efc', 'falco/ctrl.py'), ('calc_zern_sens', 'falco/zern.py')],
     ['results of the same computation with and without workers'], 'serial/parallel equivalence monitor with injected worker delays', NOTE)
prop('I01', 'Simulated camera images are the weighted sums of their components',
     'A simulated broadband image is the sum over sub-bandpasses of their weights times the sum over wavelengths, stars and polarization states of weighted intensities of the full optical model; sub-bandpass and expected images obey the same sums, and weights add to one. '
     'Detector noise added to an image has the mean, the shot, dark-current and read-noise variance stated by the detector parameters, and is zero when all noise is off.',
     ['configurations', 'inputs'], 'Any coronagraph, number of sub-bandpasses, wavelengths, stars, polarization states and detector parameters.',
     'Tests compare single averages; a wrong weight, a swapped sub-band or a noise term in the wrong units leaves them close.',
     ['falco/imaging.py'], [('get_summed_image', 'falco/imaging.py'), ('get_sbp_image', 'falco/imaging.py'), ('get_expected_summed_image', 'falco/imaging.py'), ('add_noise_to_subband_image', 'falco/imaging.py')],
     ['returned images'], 'recomposition monitor from single model fields; statistical monitor for noise', NOTE)
prop('E01', 'The perfect estimator returns the full model\'s fields',
     'The perfect estimate of the dark-hole field is, for every control mode, the field of the full model at that mode\'s wavelength, star and Zernike aberration (averaged over the wavelengths of its sub-bandpass and its polarization states), at the correction pixels in the order of the mask. '
     'The images it stores are those fields\' intensities, with the incoherent part accounted, and estimation leaves the DM commands as they were.',
     ['configurations', 'inputs'], 'Any coronagraph, sub-bandpasses, wavelengths, modes, stars, polarization states and dark-hole shape.',
     'Tests use one mode and check a mean contrast only.',
     ['falco/est.py'], [('perfect', 'falco/est.py'), ('wrapper', 'falco/est.py')],
     ['the estimate and its image arrays'], 'mode-by-mode value monitor against single fields of the full model', NOTE)
prop('E02', 'Pairwise probing recovers the field and leaves the DMs as they were',
     'Estimating a dark field by pairwise probing takes one unprobed and the requested number of plus/minus probe images per sub-bandpass, with probe commands equal and opposite about the current command, of the requested amplitude, region and orientation and on the probing mirror only. '
     'From noiseless images it recovers the true coherent field and attributes added incoherent light to the incoherent part, whether it uses the model or the Jacobian, and the DM commands end as they began.',
     ['histories', 'configurations', 'inputs'], 'Any probing mirror, axis, offset, rotation, number of pairs, sub-bandpasses, schedule, and any dark field.',
     'Tests probe one default configuration on one mirror; the schedule, the second mirror and pixel-wise recovery are not examined.',
     ['falco/est.py'], [('pairwise_probing', 'falco/est.py'), ('gen_pairwise_probe', 'falco/est.py'), ('gen_pairwise_probe_square', 'falco/est.py')],
     ['images requested during estimation with the commands of that moment; the estimate'], 'event-log monitor of camera exposures plus truth comparison of the estimate', NOTE)

prop('K01', 'Controllers apply the regularised least-squares command of the Jacobian',
     'Each electric-field-conjugation controller returns the command that minimises the weighted linearised dark-hole energy plus the regularisation penalty relative to the strongest actuator (including command offsets and actuator weights), times the requested scale factor. '
     'Grid searches return the best of the combinations they were given, scheduled control uses the regularisation its schedule asks for, and the gradient-based controller finds the minimum of the same cost; unused mirrors and the caller\'s estimates and Jacobian are untouched.',
     ['configurations', 'inputs'], 'Any Jacobian, estimate, regularisation and scale-factor grid, mode weights, actuator weights, ties, limits, mirrors in use and schedule.',
     'Tests run default configurations and check a mean contrast; a suboptimal or mis-scaled command still improves it.',
     ['falco/ctrl.py'], [('wrapper', 'falco/ctrl.py'), ('_grid_search_efc', 'falco/ctrl.py'), ('_planned_efc', 'falco/ctrl.py'), ('_planned_ad_efc', 'falco/ctrl.py')],
     ['commands left on the mirrors and the reported regularisation'], 'online optimality monitor against an independent least-squares solution', NOTE)
prop('K02', 'Weak actuators are culled consistently and schedules expand as written',
     'An actuator is kept for control exactly when its response is at least the chosen fraction of the strongest one\'s or it is tied to another, culling happens once for the mirrors in use and keeps commands and Jacobian columns aligned, and an actuator with no response is never kept by the threshold alone. '
     'A control schedule expands into exactly the iterations, mirrors, regularisations, relinearisations and grid searches written in its rows, in order.',
     ['inputs', 'histories'], 'Any Jacobian, threshold, set of mirrors in use per iteration, ties, and any schedule matrix.',
     'Tests expand one schedule and never cull; alignment errors show only after culling with some mirrors.',
     ['falco/ctrl.py'], [('cull_weak_actuators', 'falco/ctrl.py'), ('efc_schedule_generator', 'falco/ctrl.py')],
     ['kept actuators, Jacobian columns and expanded schedules'], 'value monitor against a reference model, over histories of iterations', NOTE)
prop('W01', 'The control loop does and records what its parts do, and persists it',
     'A wavefront sensing and control loop applies, iteration by iteration, the relinearisations, estimates and commands its schedule implies, and every recorded history (commands, intensities measured, estimated and incoherent per region and sub-bandpass, throughput, regularisation, mirror statistics, sensitivities, singular values, agreement of expected and estimated field changes) is the value of its quantity at that iteration. '
     'After every completed iteration the file on disk holds exactly the history so far, a failure in any later step loses nothing of it, and the final files equal what is returned.',
     ['histories', 'crash_points', 'configurations'], 'Any coronagraph, controller, estimator, schedule, options and number of iterations, and a failure in any iteration.',
     'Tests run one loop per controller and look at the last contrast; off-by-one bookkeeping, stale Jacobians and histories in the wrong slot are invisible to them.',
     ['falco/wfsc.py', 'falco/plot.py', 'falco/est.py', 'falco/ctrl.py'],
     [('loop', 'falco/wfsc.py'), ('init', 'falco/wfsc.py'), ('store_intensities', 'falco/est.py'), ('delta_efield', 'falco/plot.py'), ('singular_mode_spectrum_of_Efield', 'falco/plot.py')],
     ['the recorded history, the files on disk at every iteration and the commands'], 'offline replay checker over the recorded history, file snapshots per iteration, injected failures', NOTE)
prop('Z01', 'Zernike aberrations are the polynomials they are named after',
     'Every Zernike map, equation, applied aberration and fit uses the polynomial its index names: Noll-ordered and of unit rms over the beam for full circular pupils at any order and either centering, orthonormal over the annulus for obscured pupils, and over the hexagon for segments, summed with the given coefficients. '
     'Applying them multiplies the wavefront by exactly that phase or amplitude (or leaves it alone when asked), fitting a map recovers the coefficients it was made of (least squares over the valid points), and a segmented aperture draws exactly the requested segments, each with its own aberration.',
     ['inputs', 'configurations'], 'Any set of indices and coefficients, beam sampling, centering, radius, obscuration, mask of valid points, and segmented layout.',
     'Tests look at a few low-order maps; orders beyond the hundreds, several obscured terms at once, off-center or rectangular fits and partial apertures are not reached.',
     ['falco/zern.py', 'falco/proper'], [('gen_norm_zern_maps', 'falco/zern.py'), ('propcustom_zernikes', 'falco/zern.py'), ('prop_zernikes', 'falco/proper/prop_zernikes.py'), ('prop_noll_zernikes', 'falco/proper/prop_noll_zernikes.py'), ('prop_fit_zernikes', 'falco/proper/prop_fit_zernikes.py'), ('prop_hex_zernikes', 'falco/proper/prop_hex_zernikes.py'), ('prop_hex_wavefront', 'falco/proper/prop_hex_wavefront.py')],
     ['returned maps, equations, coefficients and the wavefront'], 'value monitor against exact polynomials and numerical orthonormalisation', NOTE)
prop('Z02', 'Zernike sensitivities are mean squared field changes in each annulus',
     'The sensitivity of a dark-hole annulus to a Zernike aberration is the squared modulus of the change of the focal-plane field caused by that aberration of the stated rms at the entrance pupil, averaged over all distinct wavelengths, polarization states and the pixels of the annulus within the dark-hole sector; there is one value per mode and annulus, for one or many of each. '
     'Evaluating it, alone or in the control loop, leaves the entrance pupil, the mirrors and any aberration of the model unchanged.',
     ['configurations', 'inputs'], 'Any coronagraph, bandwidth, polarization states, modes, annuli, dark-hole sector, aberrated pupil and full-model resolution.',
     'Tests compare serial with parallel for one configuration; neither value is compared with the definition.',
     ['falco/zern.py', 'falco/wfsc.py'], [('calc_zern_sens', 'falco/zern.py'), ('loop', 'falco/wfsc.py')],
     ['the table of sensitivities and the state of the model after it'], 'recomposition monitor from single fields of the optical model', NOTE)

prop('R01', 'Physical-optics propagation obeys Fresnel diffraction and beam optics',
     'Any sequence of lenses and propagation distances, in whatever mix of near- and far-field steps the library chooses, conserves energy, is linear in the field and turns every input field into the one scalar Fresnel diffraction gives, whichever intermediate reference surfaces and FFT implementation are used. '
     'The sampling, beam radius, position, distance to focus, focal ratio and reference radius it reports follow Gaussian beam optics of the pilot beam, and saving, tabulating, extracting or restoring a wavefront changes none of it.',
     ['inputs', 'configurations'], 'Any train of lenses, distances, propagation switches, grids, wavelengths, beam fractions and input fields the grid can sample.',
     'Tests use a few fixed prescriptions with loose sums; the mix of near and far field steps and switches of a general train is not reached.',
     ['falco/proper'], [('prop_propagate', 'falco/proper/prop_propagate.py'), ('prop_lens', 'falco/proper/prop_lens.py'), ('prop_begin', 'falco/proper/prop_begin.py'), ('prop_end', 'falco/proper/prop_end.py'), ('prop_select_propagator', 'falco/proper/prop_select_propagator.py'), ('prop_state', 'falco/proper/prop_state.py')],
     ['wavefront arrays and beam quantities after every step'], 'online monitor of each step against closed-form Fresnel propagation and an independent pilot beam', NOTE)
prop('R02', 'Drawn apertures cover each pixel by the exact fraction of the shape',
     'Every ellipse, rectangle, rounded rectangle and polygon drawn on the beam, of any size, position, rotation and wherever it falls on or off the grid, gives each pixel the fraction of its area the shape covers, to the accuracy of the antialiasing; dark shapes and obscurations are the complement. '
     'A segmented hexagonal aperture is the sum of the requested segments at their hexagonal-grid positions, and applying any of them multiplies the wavefront by it.',
     ['inputs'], 'Any size, offset, rotation, vertices, antialiasing factor, normalisation, grid and segment layout.',
     'Tests draw a few centred shapes and compare areas; rotation signs, off-grid parts and edge pixels of other shapes are not looked at.',
     ['falco/proper'], [('prop_ellipse', 'falco/proper/prop_ellipse.py'), ('prop_rectangle', 'falco/proper/prop_rectangle.py'), ('prop_rounded_rectangle', 'falco/proper/prop_rounded_rectangle.py'), ('prop_polygon', 'falco/proper/prop_polygon.py'), ('prop_irregular_polygon', 'falco/proper/prop_irregular_polygon.py'), ('prop_hex_wavefront', 'falco/proper/prop_hex_wavefront.py')],
     ['masks and wavefront arrays'], 'value monitor against exact pixel coverage by Green\'s theorem', NOTE)
prop('R03', 'Error maps and resampled images equal the function they sample',
     'An error map read from a file and applied to the beam is, at every point of the beam, the map at that place with the requested centre, shift, rotation, magnification, multiplier, units and type (wavefront, mirror surface or amplitude), and magnified, rotated and pixellated images equal the image function at the transformed coordinates. '
     'Random error maps have the requested power spectrum, rms or amplitude and are reproduced exactly from the file they were saved to, and map files keep their data and labels.',
     ['inputs', 'configurations'], 'Any smooth map or image, sampling, centre, shift, rotation, magnification, type, units, size and power spectrum, with interpreted or compiled interpolation.',
     'Tests read one map and compare no pixel with a known function.',
     ['falco/proper'], [('prop_errormap', 'falco/proper/prop_errormap.py'), ('prop_readmap', 'falco/proper/prop_readmap.py'), ('prop_resamplemap', 'falco/proper/prop_resamplemap.py'), ('prop_magnify', 'falco/proper/prop_magnify.py'), ('prop_rotate', 'falco/proper/prop_rotate.py'), ('prop_pixellate', 'falco/proper/prop_pixellate.py'), ('prop_psd_errormap', 'falco/proper/prop_psd_errormap.py'), ('prop_writemap', 'falco/proper/prop_writemap.py')],
     ['maps, images, wavefronts and files'], 'value monitor against closed-form functions; ensemble monitor of spectra', NOTE)
prop('R04', 'Compiled interpolators are memory-safe, race-free and agree with the formula',
     'For any image and output size, coordinates, magnification and number of threads, the compiled cubic-convolution and damped-sinc routines read and write only their own arrays without undefined behaviour or data races, leave the input image unchanged and write every output pixel that has its kernel inside the image. '
     'Their values equal the interpolation formula, are independent of the number of threads, of whether the compiled or interpreted version is used, and of the type and memory layout of the image given.',
     ['inputs', 'schedules'], 'Any shapes, coordinates inside or far outside the image, magnifications, thread counts, array types and memory layouts.',
     'No test compiles or runs them.',
     ['falco/proper'], [('cubic_conv_c', 'falco/proper/cubic_conv_c.c'), ('cubic_conv_c', 'falco/proper/cubic_conv_threaded_c.c'), ('prop_szoom_c', 'falco/proper/prop_szoom_c.c'), ('prop_cubic_conv', 'falco/proper/prop_cubic_conv.py'), ('prop_szoom', 'falco/proper/prop_szoom.py')],
     ['sanitizer reports, output and input arrays'], 'AddressSanitizer, UndefinedBehaviorSanitizer and ThreadSanitizer over a driver of exact-size heap blocks; value monitor of outputs', NOTE)

prop('T01', 'Thin-film masks have the transmission electromagnetism gives their layers',
     'The field a stack of thin films transmits and reflects, at any angle, wavelength and polarization, is the solution of Maxwell\'s equations for its layers and materials: energy is conserved without absorption, transmission is the same from both sides, and both polarizations agree at normal incidence. '
     'Every pixel of a two-dimensional occulter and every entry of a transmission table is the value of its own thicknesses, wavelength and parameters, whatever tables earlier runs left on disk.',
     ['inputs', 'configurations', 'histories'], 'Any layers, refractive indices, angles, wavelengths, polarizations, materials, thickness maps, table parameters and sequence of table requests.',
     'Tests compare four transmissions; reflection, oblique incidence of both polarizations, maps, tables and stale files are not touched.',
     ['falco/thinfilm.py'], [('solver', 'falco/thinfilm.py'), ('calc_complex_trans_matrix', 'falco/thinfilm.py'), ('calc_complex_occulter', 'falco/thinfilm.py'), ('gen_complex_trans_table', 'falco/thinfilm.py')],
     ['returned coefficients, maps and tables'], 'value monitor against the characteristic-matrix method; conservation and reciprocity monitors; histories of table requests', NOTE)
prop('T02', 'Hybrid Lyot masks follow their layer commands at every wavelength',
     'The metal and dielectric surfaces of an adjustable hybrid Lyot mask are the superposed influences of their commands, never negative, and every pixel of the mask of every sub-band and wavelength is the thin-film transmission at that pixel\'s (nearest tabulated) thicknesses and that wavelength. '
     'Single masks, mask stacks and both optical models use the same masks.',
     ['configurations', 'inputs'], 'Any layer commands, bias, materials, table steps, sub-bands and wavelengths per sub-band.',
     'No test builds such a mask.',
     ['falco/hlc.py', 'falco/model/models.py'], [('gen_fpm_from_LUT', 'falco/hlc.py'), ('gen_fpm_cube_from_LUT', 'falco/hlc.py'), ('gen_fpm_surf_from_cube', 'falco/hlc.py'), ('discretize_fpm_surf', 'falco/hlc.py'), ('setup_fpm', 'falco/hlc.py')],
     ['surfaces, masks and model fields'], 'value monitor against stacks computed one at a time', NOTE)

NA = []
