"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, pathlib
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe or [], hook_needed=None))
    if state: d['anchors']['state'] = state
    P.append(d)
FC='euphonic/force_constants.py'; QF='euphonic/qpoint_frequencies.py'; QPM='euphonic/qpoint_phonon_modes.py'
SF='euphonic/structure_factor.py'; SP='euphonic/spectra.py'; BR='euphonic/broadening.py'; UT='euphonic/util.py'
CR='euphonic/crystal.py'; DW='euphonic/debye_waller.py'; PO='euphonic/powder.py'; SA='euphonic/sampling.py'
CC=['c/_euphonic.c','c/dyn_mat.c','c/util.c','c/py_util.c','c/load_libs.c']

p('P01','Interpolated phonons equal an independent lattice-dynamics model',
  'For any crystal, supercell and force-constants matrix, the frequencies and eigenvectors returned at any q-point solve the eigenproblem of the mass-weighted dynamical matrix obtained by Fourier-summing the force constants with the documented cell-origin phase convention, each pair interaction being shared equally over all its supercell images lying in (or on the boundary of) the Wigner-Seitz cell. Squared frequencies are its eigenvalues in ascending order (negative eigenvalues reported as negative frequencies) and eigenvectors are its normalised, mutually orthogonal columns.',
  ['inputs','configurations'],'every unit cell, supercell matrix (diagonal or not, whose Wigner-Seitz neighbours are among its 26 nearest translations), number and mass of atoms, force-constants matrix and q-point',
  'The tests compare a handful of stored materials (quartz, NaCl, LZO, graphite, Si2) with stored numbers at a few q-points; nothing relates general supercells, skewed cells or boundary-shared images to the defining formula.',
  [FC]+CC,[('supercell-image search and equal sharing of boundary images',FC+' _calculate_supercell_images'),('phase sums and dynamical matrix',FC+' _calculate_phases/_calculate_dyn_mat'),('same in C','c/dyn_mat.c'),('mass weighting, eigensolver, sign of imaginary frequencies',FC+' _calculate_phonons_at_q, c/dyn_mat.c')],
  ['ForceConstants.calculate_qpoint_phonon_modes','ForceConstants.calculate_qpoint_frequencies'])
p('P02','Dipole-dipole correction is the converged Ewald sum, whatever its parameter',
  'When Born charges and a dielectric tensor are present, the dynamical matrix at every q-point contains exactly the analytic (Gonze & Lee) long-range dipole-dipole term, so frequencies do not depend on the value of dipole_parameter, and at a split gamma point it contains the non-analytic term for the direction of approach. Converting total force constants with dipole interactions to short-ranged ones and interpolating restores the total at every q-point commensurate with the supercell, whatever units the inputs are given in.',
  ['inputs','configurations'],'every polar crystal with any Born charges and (anisotropic) dielectric tensor, any q-point and direction of approach, any dipole_parameter, any input units',
  'Stored-reference tests cover two polar materials and a couple of dipole_parameter values; convergence of the Ewald sum and the conversion of total force constants are never compared with an independent sum.',
  [FC]+CC,[('Ewald initialisation and cutoffs',FC+' _dipole_correction_init'),('per-q reciprocal sum',FC+' _calculate_dipole_correction; c/dyn_mat.c'),('non-analytic term',FC+' _calculate_gamma_correction'),('total->short-range conversion',FC+' from_total_fc_with_dipole')],
  ['ForceConstants.calculate_qpoint_phonon_modes','ForceConstants.from_total_fc_with_dipole'])
p('P03','C/Python, threading, batching and reduction do not change the phonons',
  'The frequencies, eigenvectors (up to phase and rotation within degenerate sets), mode gradients and weights returned for a q-point are the same whether the C extension or pure Python is used, for any number of threads, with or without merging of repeated q-points, with or without requesting gradients or eigenvectors, and however the list of q-points is ordered, repeated or split over several calls. The returned q-points and weights are in the order and number requested.',
  ['inputs','configurations','schedules'],'every force-constants object and list of q-points (including repeated and gamma points) with every combination of use_c, n_threads, reduce_qpts, splitting off, eigenvector/gradient options',
  'Tests check particular flag combinations on stored data with fixed q-point lists; combinations of options, duplicates, orders and thread schedules are a product space no list covers.',
  [FC]+CC,[('q-point reduction and expansion',FC+' _calculate_phonons_at_qpts'),('OpenMP loop over q-points','c/_euphonic.c'),('contiguity of arguments','euphonic/validate.py _ensure_contiguous_args')],
  ['calculate_qpoint_phonon_modes','calculate_qpoint_frequencies'])
p('P04','Phonons respect lattice periodicity, time reversal and relabelling',
  'Frequencies are invariant under adding any reciprocal-lattice vector to q, under q -> -q, under rigid rotation of the crystal, under shifting the origin or reordering of atoms (with the force constants transformed accordingly), under reordering cell origins (the first staying the reference cell), and scale with force constants and masses as sqrt(F/m). Eigenvectors transform correspondingly and remain orthonormal.',
  ['inputs'],'every force-constants object (with or without dipole terms) and q-point, every such transformation',
  'No existing test applies a symmetry transformation to the input and compares the outcome; stored references only pin single points.',
  [FC,CR]+CC,[('phase convention and image search',FC+' _calculate_phases, _calculate_supercell_images'),('dipole term',FC+' _calculate_dipole_correction')],
  ['calculate_qpoint_phonon_modes'])
p('P05','Acoustic sum rule options give three zero modes at gamma and little else',
  "With asr='realspace' or asr='reciprocal' the three acoustic modes at gamma have zero frequency for any force constants close to satisfying translational invariance, and force constants that already satisfy the acoustic sum rule give the same frequencies with and without the correction. The correction only removes the rigid-translation modes of the (not mass-weighted) matrix, so optical modes change by no more than the size of the violation, and neither option modifies the stored force constants.",
  ['inputs','configurations'],'every stable force-constants matrix violating the sum rule by any moderate amount, with and without dipole terms, both asr options, every q-point',
  'Tests check stored frequencies for a few materials only; that the correction actually nullifies acoustic modes for arbitrary input, and is inert when not needed, is not tested.',
  [FC],[('realspace correction',FC+' _enforce_realspace_asr'),('reciprocal correction',FC+' _enforce_reciprocal_asr'),('acoustic mode identification',FC+' _find_acoustic_modes')],
  ['calculate_qpoint_phonon_modes(asr=...)'])
p('P06','Gamma splitting and inserted gammas keep q-points, weights, modes consistent',
  'With splitting enabled for a polar crystal, a gamma point inside a path is given frequencies for the direction of approach/departure implied by its neighbouring q-points, and with insert_gamma=True it is doubled so both directions appear; without splitting the plain analytic result is returned. In every case the returned q-points, frequencies, eigenvectors and weights have matching lengths, non-gamma q-points are unaffected, weights total the same as requested (each doubled gamma sharing its weight) and the stated order is kept.',
  ['inputs','configurations'],'every sequence of q-points containing gamma (and its lattice equivalents) anywhere, any weights, with all combinations of splitting, insert_gamma and reduce_qpts',
  'Tests use a few fixed paths; position, multiplicity, adjacency of gammas and weights form an unbounded space.',
  [FC],[('gamma insertion, weights, direction selection',FC+' _calculate_phonons_at_qpts, _get_q_dirs'),('non-analytic correction',FC+' _calculate_gamma_correction')],
  ['calculate_qpoint_phonon_modes(splitting=, insert_gamma=, weights=)'])
p('P07','Mode gradients are the derivative of the frequencies; widths follow from them',
  'Wherever a mode is non-degenerate with a real, clearly non-zero frequency, the returned mode gradient is the Cartesian gradient of its frequency with respect to q (equal to a finite difference of frequencies returned by separate calculations), with or without ASR; with dipole terms it is the documented expectation value of the gradient of the short-ranged dynamical matrix. Mode widths computed from gradients are the gradient moduli scaled by the documented cell-volume and number-of-q-points factor, in energy units, independent of units of the inputs.',
  ['inputs','configurations'],'every force-constants object, q-point and non-degenerate mode, either implementation',
  'Tests compare to stored gradients for two materials; no derivative check exists.',
  [FC,UT]+CC,[('Hellmann-Feynman gradient',FC+' _calculate_phonons_at_q, _calculate_dipole_correction; c/dyn_mat.c'),('width scaling',UT+' mode_gradients_to_widths')],
  ['return_mode_gradients=True','euphonic.util.mode_gradients_to_widths'])
p('P08','Results depend only on current data, never on the history of calls',
  'Any calculation on an object gives the same result as the same calculation on a freshly constructed object holding the same data, no matter which calculations, option values or attribute assignments preceded it. Calculations never modify the object they are called on, nor arrays, quantities or objects passed as arguments.',
  ['histories'],'every sequence of calculations (any options) and assignments of force constants, Born charges, dielectric, units or crystal data on one object',
  'Each test builds a fresh object and makes one call; caches keyed to earlier calls or aliased arrays only misbehave over histories.',
  [FC,QPM,QF,SF,DW,SP],[('cached ASR-corrected force constants, dipole initialisation and supercell images',FC),('copying of inputs','euphonic/force_constants.py, euphonic/qpoint_phonon_modes.py')],
  ['all calculate_* methods'],
  [dict(name='_force_constants_asr',meaning='cached ASR-corrected force constants',where=FC),dict(name='_dipole_init_data',meaning='cached q-independent Ewald data',where=FC),dict(name='_sc_image_i/_n_sc_images',meaning='cached supercell images',where=FC)])
p('P09','Units: every quantity is the same physical value however it is expressed',
  'Changing an object\'s *_unit attribute and reading or assigning quantities in any compatible unit never changes the physical value stored, nor any later calculation, and data supplied in any compatible input unit gives physically identical results. Incompatible units or non-quantities are rejected with an error that leaves the object unchanged.',
  ['inputs','histories'],'every sequence of unit changes, reads and assignments on every kind of data object, interleaved with calculations',
  'Tests switch each unit once and read once; combinations of units with later calculations, assignments and failures are not covered.',
  ['euphonic/validate.py',FC,QF,QPM,SF,DW,CR,SP],[('unit-checking attribute setters','euphonic/validate.py _check_unit_conversion'),('internal storage in fixed units','property getters/setters of every data class')],
  ['*_unit attributes and Quantity properties'])
p('P10','Serialisation round-trips are lossless',
  'Writing any data object to a dictionary or JSON file and reading it back gives an equivalent object of the same class: same arrays to floating point precision, same shapes, units, metadata, labels, optional fields present or absent, and same results in calculations. Text export contains the same numbers to its stated precision, and exporting does not modify or alias the object.',
  ['inputs'],'every instance of Crystal, ForceConstants, QpointFrequencies, QpointPhononModes, StructureFactor, DebyeWaller and the spectrum classes, incl. single q-points, single atoms, absent optional data, non-default units and metadata',
  'Tests round-trip a few stored files; a bug with single q-points has already slipped through such tests (changelog 1.3.2).',
  ['euphonic/io.py',CR,FC,QF,QPM,SF,DW,SP],[('generic dict/JSON conversion','euphonic/io.py'),('class-specific to_dict/from_dict','every data class')],
  ['to_dict/from_dict','to_json_file/from_json_file','to_text_file'])
p('P11','CASTEP files are read faithfully',
  'Reading a well-formed CASTEP .phonon, .phonon_dos or .castep_bin/.check file yields exactly the cell, atoms, masses, q-points, weights, frequencies, eigenvectors, DOS values or force constants, Born charges, dielectric tensor and supercell written in it, with correct units and array order, for any numbers of atoms, q-points, species and cells. Options that select or average data (repeated split gamma points, chosen element, frequencies only) act as documented.',
  ['inputs'],'every file a CASTEP-format writer could produce, in the one big-endian i4/f8 record format CASTEP writes, with missing optional blocks, LO-TO split gamma blocks',
  'The tests read a dozen stored files; other sizes, orders and optional block combinations are never exercised.',
  ['euphonic/readers/castep.py',QF,QPM,FC,SP],[('text parsing','euphonic/readers/castep.py read_phonon_data/read_phonon_dos_data'),('Fortran record parsing','euphonic/readers/castep.py read_interpolation_data')],
  ['from_castep','from_castep_phonon_dos'])
p('P12','Phonopy files are read faithfully, whatever atom and supercell order',
  'Reading Phonopy yaml/hdf5/plain-text files (force constants full or compact, summary, BORN, mesh/band/qpoints with eigenvectors) yields phonons identical to those implied by the Phonopy convention for the numbers written: same crystal, units converted, q-points, weights, eigenvectors in Euphonic phase convention, and interpolated frequencies equal to the Phonopy dynamical matrix at every q-point commensurate with the supercell. The result does not depend on which of the equivalent files or formats carries the data, on supercell atom order, or on the shape of the supercell matrix.',
  ['inputs','configurations'],'every primitive cell, supercell matrix (diagonal or not), atom permutation in the supercell, calculator unit set and choice of files',
  'Tests use five stored materials with natural atom order; force-constant re-indexing for general supercells and orderings is not covered.',
  ['euphonic/readers/phonopy.py',UT],[('re-indexing into cell origins',UT+' convert_fc_phases, _get_supercell_relative_idx'),('file parsing','euphonic/readers/phonopy.py')],
  ['ForceConstants.from_phonopy','QpointPhononModes.from_phonopy','euphonic.util.convert_fc_phases'])
p('P13','Damaged or inconsistent input files are rejected, never misread',
  'A data file (CASTEP binary or text, Phonopy, Euphonic JSON) that was truncated at any point, or whose declared sizes disagree with its contents, is either rejected with an exception or yields data identical to the intact file; it never produces silently different or partly uninitialised data, an endless loop or a crash of the process.',
  ['fault_sequences','inputs'],'every truncation point (other than inside the last number of a plain-text file, or between two self-contained blocks whose number the format does not declare, which leave another well-formed file) and every declared-size corruption of every supported kind of input file',
  'Only a couple of specific malformed files are tested; the truncation points form a large fault space.',
  ['euphonic/readers/castep.py','euphonic/readers/phonopy.py','euphonic/io.py'],[('record-mark checks','euphonic/readers/castep.py _read_entry'),('shape checks','euphonic/readers/phonopy.py _check_fc_shape; euphonic/validate.py')],
  ['from_castep','from_phonopy','from_json_file'])
p('P14','Objects with inconsistent shapes, types or missing parts cannot be constructed',
  'Every data class accepts any mutually consistent set of constructor arguments and stores them unchanged, and rejects with a TypeError, ValueError or unit error any argument of the wrong type, wrong array shape, inconsistent length or incompatible dimension. No invalid object escapes construction, and option strings outside the documented set raise ValueError instead of being ignored.',
  ['inputs'],'every constructor of every data class, every single-argument corruption; every documented enumerated option',
  'Tests list particular bad inputs per class; the combination of classes, arguments and corruption kinds is much larger.',
  ['euphonic/validate.py',CR,FC,QF,QPM,SF,DW,SP],[('constructor checks','euphonic/validate.py _check_constructor_inputs')],
  ['constructors'])
p('P15','DOS, PDOS and DOS maps account for every mode exactly once',
  'The unbroadened DOS is the weighted histogram of the frequencies: each bin times its width sums to the q-weighted number of modes inside it, so it integrates to 3 x atoms when all modes fall in range, is additive when bins are merged, independent of q-point order, of splitting a weight over copies and of units. Partial DOS are non-negative, sum over atoms to the total (to the documented neutron-weighted sum when weighted by cross-sections), and a DOS map is the per-q-point DOS on the q-path axis.',
  ['inputs'],'every set of frequencies, eigenvectors, weights, uniform or non-uniform bins in any unit, and weighting option',
  'Stored-reference tests use a couple of materials and regular bins; sum rules and additivity are not tested.',
  [QF,QPM],[('histogram and normalisation',QF+' _calculate_dos'),('atom projection and cross-section weighting',QPM+' calculate_pdos'),('map over q',QF+' calculate_dos_map')],
  ['calculate_dos','calculate_pdos','calculate_dos_map'])
p('P16','Adaptive and variable-width broadening match the exact sum within tolerance',
  "The 'reference' adaptive DOS is the sum of one unit-area Gaussian per mode of its own width evaluated on the bin centres, and the 'fast' interpolated method agrees with it, for Gaussian or Lorentzian shapes and either error fit, to within a small multiple of the requested error while conserving total intensity. Broadening a spectrum with a position-dependent width equals, within the same tolerance, the explicit sum of each bin's intensity convolved with the kernel of its own width, and is linear, non-negative and independent of units.",
  ['inputs','configurations'],'every distribution of frequencies/intensities and of widths (including identical, very narrow and very wide ranges), error level, fit, shape, width convention',
  'Tests check stored references for one or two materials and error values.',
  [BR,QF,SP],[('width sampling and coefficient fit',BR+' width_interpolated_broadening, find_coeffs'),('reference kernels',QF+' _calculate_dos'),('variable width',BR+' variable_width_broadening')],
  ['calculate_dos(mode_widths=...)','Spectrum*.broaden(callable)','euphonic.broadening'])
p('P17','Debye-Waller exponents follow the thermal-displacement formula',
  'The Debye-Waller tensor of each atom equals the documented q-weighted sum over modes above frequency_min (coth of half the reduced frequency, or its zero-temperature limit), for any number of q-points, weights, temperature and units. Each tensor is symmetric and positive semi-definite, non-decreasing with temperature, independent of q-point order and weight normalisation, and symmetrisation makes it invariant under the crystal symmetry without changing the result of symmetric input.',
  ['inputs'],'every set of phonon modes on any number of q-points (including more than one internal batch), any temperature incl. zero, any crystal symmetry',
  'Tests compare with stored values for three materials and temperatures.',
  [QPM,DW,CR],[('chunked sum over q-points',QPM+' calculate_debye_waller'),('symmetrisation',QPM+' calculate_debye_waller, '+CR+' get_symmetry_equivalent_atoms')],
  ['calculate_debye_waller'])
p('P18','One-phonon structure factors follow the documented formula and its symmetries',
  'Structure factors equal the documented coherent one-phonon expression with scattering lengths from a table or given values and an optional Debye-Waller factor, at every q-point and mode. They are non-negative, invariant (summed over degenerate modes) under eigenvector phase, atom reordering and origin shift, quadratic in scattering length, carry over the input frequencies, weights and crystal, and are never modified by or modify the source object.',
  ['inputs'],'every crystal, set of phonon modes, scattering lengths (any unit or table), with and without Debye-Waller data at any temperature',
  'Stored-reference tests for three materials only.',
  [QPM,SF,UT],[('structure factor sum',QPM+' calculate_structure_factor'),('reference data',UT+' get_reference_data')],
  ['calculate_structure_factor'])
p('P19','S(Q,w) maps and averages conserve intensity and obey detailed balance',
  'Each energy bin of an S(Q,w) map holds the sum of the structure factors of the modes lying in it at that q-point (creation at +w weighted n+1, annihilation at -w weighted n when a temperature is used), divided by bin width, so neutron energy-loss and energy-gain intensities satisfy detailed balance and nothing inside the range is lost or counted twice. The 1-D average is the weighted mean over q-points of the same intensities, and supplied temperatures that contradict the stored one are rejected.',
  ['inputs'],'every structure factor (with or without temperature), energy bins covering positive, negative or both ranges, any units and weights',
  'Stored references for one material; no conservation or detailed-balance test.',
  [SF],[('Bose factor and binning',SF+' _bose_corrected_structure_factor, _bose_factor, calculate_sqw_map'),('average',SF+' calculate_1d_average')],
  ['StructureFactor.calculate_sqw_map','StructureFactor.calculate_1d_average'])
p('P20','Powder averages are the spherical average of the underlying calculation',
  'Each powder-averaging function returns the plain average, over the sampled points of a sphere of the given |q|, of the spectrum that the corresponding direct calculation gives at those q-points, for every sampling scheme, number of points, weighting and temperature, with the requested bins. All sampled q-points have modulus |q| in reciprocal space for any cell shape and any length unit.',
  ['inputs','configurations'],'every force-constants object, |q|, number of points, sampling scheme, jitter and weighting',
  'Existing tests mock out the calculation; only the call arguments are checked for one stored material.',
  [PO,SA],[('q-sphere sampling and conversion to fractional coordinates',PO+' _get_qpts_sphere, _qpts_cart_to_frac'),('averaging',PO)],
  ['sample_sphere_dos','sample_sphere_pdos','sample_sphere_structure_factor'])
p('P21','Sphere and square sampling schemes give the right number of well-spread points',
  'Every sampling generator yields exactly the documented number of points, each on the unit sphere (or inside the unit square), with polar and Cartesian outputs describing the same points, and covers the sphere as documented: for the equal-area schemes the fraction of points in any region converges to its share of the area, and the regular polar grid is even in its two angles. Jitter keeps points in range and close to the unjittered position, and unjittered schemes are deterministic.',
  ['inputs'],'every number of points/rows/columns and option of each generator',
  'Tests check a few fixed sizes.',
  [SA],[('generators',SA)],['euphonic.sampling.*'])
p('P22','Kinematic constraints mask exactly the inaccessible (q, energy) bins',
  'Applying kinematic limits leaves every bin of a 2-D spectrum unchanged if its energy and |q| can be reached for the given fixed incident or final energy and some scattering angle in the range, and sets every other bin to NaN. This holds for direct and indirect geometry, any angle range, any units, for bins given as edges or centres, and never modifies the input spectrum.',
  ['inputs'],'every 2-D |q|-energy spectrum, incident or final energy and angle range',
  'Tests check stored masks for a few instruments.',
  [SP],[('cosine range and q bounds',SP+' apply_kinematic_constraints, _get_cos_range')],['apply_kinematic_constraints'])
p('P23','Spectrum collections behave as labelled lists of spectra',
  'For 1-D and 2-D spectrum collections, indexing, slicing, iteration, concatenation, construction from spectra, summation, grouping, selection, scaling and copying act exactly as on the list of (spectrum, metadata) pairs they contain: right data, right labels (shared keys at top level, differing keys per line), right order, same axes and units. Results are independent of the operands, which are left unchanged.',
  ['histories','inputs'],'every sequence of these operations on collections with any metadata, units and bins',
  'Tests exercise each operation alone on stored collections; 2-D collections are new and lightly tested.',
  [SP],[('collection mixin',SP+' SpectrumCollectionMixin'),('metadata tidying',SP+' _combine_metadata')],
  ['Spectrum1DCollection','Spectrum2DCollection'])
p('P24','Bins, splitting and x-axis labels stay consistent with the data',
  'Bin edges and centres derived from each other preserve order, count (edges = centres + 1) and units, each centre lying within its bin, and bin widths match the edges. Splitting a spectrum at indices or automatically at gaps returns pieces that concatenate back to the original points, data, tick labels (re-indexed) and metadata, for every spectrum class.',
  ['inputs'],'every 1-D/2-D spectrum or collection with monotonic axes given as centres or edges, tick labels and split indices',
  'Tests use a few fixed arrays.',
  [SP],[('edge/centre conversion',SP+' get_bin_edges/get_bin_centres'),('splitting',SP+' split, _split_by_indices, _cut_x_ticks')],
  ['get_bin_edges','get_bin_centres','get_bin_widths','split'])
p('P25','Fixed-width broadening is convolution with a normalised kernel of given width',
  'Broadening a 1-D or 2-D spectrum or collection with a constant width equals discrete convolution of the data with the Gaussian or Lorentzian of that full width at half maximum (or standard deviation, if that convention is chosen): it is linear, commutes with adding and scaling, preserves axes and metadata, conserves integrated intensity away from the edges, acts on the chosen axis only, and does not depend on units. A collection broadens exactly as its members do, irregular bins are refused for convolution unless overridden, and the input is unchanged.',
  ['inputs','configurations'],'every spectrum, width, shape, axis choice, unit and bin layout',
  'Tests compare with stored results of one material.',
  [SP,BR],[('convolution',SP+' _broaden_data, _distribution_1d, _lorentzian')],['Spectrum*.broaden(Quantity)'])
p('P26','Crystal geometry and symmetry queries are correct for any cell',
  'For any cell, reciprocal vectors are dual to the cell vectors (factor 2 pi), the volume is that of the parallelepiped, recommended grids have spacing not exceeding the one requested with the fewest divisions, species indices partition the atoms, and the symmetry-equivalent atoms returned are permutations that map the structure onto itself under the accompanying rotations and translations, forming the full group. Monkhorst-Pack grids contain the right number of distinct points, evenly spaced and symmetric about gamma.',
  ['inputs'],'every non-degenerate cell, atom arrangement (low or high symmetry), grid and spacing in any unit',
  'Tests use three stored crystals.',
  [CR,UT],[('geometry',CR),('grid',UT+' mp_grid')],['Crystal.*','euphonic.util.mp_grid'])
p('P27','q-path utilities label, measure and break paths correctly',
  'The dispersion x-axis accumulates the Cartesian distance between successive q-points (with equivalent zone-boundary jumps contributing none), tick labels appear exactly at path ends, direction changes and recognised special points with the symbol of a q-point equivalent to the labelled one, gamma and direction-change detection agree with their definitions, and cell-origin listings are complete. None of this depends on adding reciprocal lattice vectors or on the length unit.',
  ['inputs'],'every sequence of q-points and crystal cell',
  'Tests use a few stored paths.',
  [UT,QF],[('abscissa and labels',UT+' _calc_abscissa, _recip_space_labels, get_qpoint_labels'),('direction changes',UT+' direction_changed, is_gamma')],
  ['get_dispersion','euphonic.util.get_qpoint_labels','euphonic.util.direction_changed','euphonic.util.is_gamma','euphonic.util.get_all_origins'])
p('P28','Mode reordering only permutes modes, and follows the branches',
  'Reordering frequencies by eigenvector similarity leaves, at every q-point, the same set of (frequency, eigenvector) pairs, permuted; along a path where eigenvectors vary slowly the branch a mode belongs to keeps its index through crossings. It never duplicates or drops a mode for any data, and dispersion data afterwards list exactly those frequencies.',
  ['inputs'],'every set of phonon modes on any q-path, including degenerate, crossing and unrelated eigenvectors',
  'Tests compare with stored orders for three materials.',
  [QPM],[('greedy eigenvector matching',QPM+' reorder_frequencies')],['reorder_frequencies','get_dispersion'])
p('P29','Plots show the data they are given',
  'Line and colour plots contain exactly the spectrum values at the right coordinates for every spectrum, in order, on the right axes: one line per spectrum or band, image extents equal to bin edges, requested limits and labels applied, tick labels at their x positions, and colour limits spanning all panels. Plotting does not change the spectra, and spectra in unequal units are refused or converted, never drawn on one scale.',
  ['inputs'],'every 1-D/2-D spectrum, collection or sequence of them with labels, limits and tick labels',
  'Tests mock the axes or check a few stored figures.',
  ['euphonic/plot.py'],[('plotting','euphonic/plot.py')],['plot_1d','plot_1d_to_axis','plot_2d','plot_2d_to_axis'])
p('P30','Command-line tools produce exactly what the same API calls produce',
  'For any valid combination of options, each command-line tool saves the spectrum obtained by the equivalent library calls (same grid or path, bins, units, weighting, broadening, scaling, temperature, selection and reordering), and rejects contradictory options. Performance options (C or Python, threads) do not change saved results.',
  ['configurations','inputs'],'every combination of options of the dispersion, DOS, intensity-map and powder-map tools and the sampling viewer, on any supported input',
  'Script tests run a fixed list of option strings on stored data, comparing with stored output.',
  ['euphonic/cli/utils.py','euphonic/cli/dos.py','euphonic/cli/dispersion.py','euphonic/cli/intensity_map.py','euphonic/cli/powder_map.py'],
  [('option handling','euphonic/cli/*')],['euphonic-dos','euphonic-dispersion','euphonic-intensity-map','euphonic-powder-map'])
p('P31','Reference neutron data are looked up faithfully',
  'Looking up any bundled or user-supplied reference collection returns, for each species, exactly the stored number in the stored unit, for every property in the file; unknown collections, properties or species give an error, and calculations using a named collection equal those given the same values explicitly.',
  ['inputs'],'every property and species of bundled collections; any user file of the documented format and units',
  'Tests look up a couple of values.',
  [UT,QPM,'euphonic/data'],[('decoding',UT+' get_reference_data')],['get_reference_data','scattering_lengths=/cross_sections= strings'])
p('P32','Brille interpolation reproduces the force-constants phonons',
  'A Brille interpolator built from force constants fills a grid of the requested type and size over the irreducible zone of the crystal with the frequencies and eigenvectors of direct force-constants interpolation with the requested options, and returns at any q-points, in meV, what Brille interpolates from that grid; phonons at q-points equivalent by the space group or a reciprocal lattice vector are equivalent, frequencies approach direct interpolation as the grid is refined, and the objects returned have the requested q-points and the crystal of the force constants. Unknown grid types and grids that do not match the crystal are rejected, and no argument is modified.',
  ['inputs','configurations'],'every crystal with a recognised space group, grid type, size and q-points anywhere in reciprocal space',
  'Tests mostly mock Brille or compare with stored numbers for quartz.',
  ['euphonic/brille.py'],[('grid construction and filling','euphonic/brille.py')],['BrilleInterpolator'])
p('P33','The C extension is memory-safe, race-free, leak-free and agrees with Python',
  'For every phonon calculation the API accepts (any number of atoms, cells and periodic images, q-points, gamma points and directions, options, number of threads, memory layout or integer type of the arrays) the C extension gives the frequencies, eigenvectors and mode gradients of the pure Python implementation and only reads and writes inside the arrays it was given or allocated, never uses uninitialised values, has no data race between its threads whatever their schedule, leaves the input arrays unchanged, and releases all memory and references it took.',
  ['inputs','schedules','configurations'],'every valid force constants, q-points, options, number of threads and array layout, every interleaving of threads',
  'Tests run a few crystals with an optimised build whose errors stay invisible unless numbers change.',
  CC+['euphonic/force_constants.py'],[('phonon loop','c/_euphonic.c'),('dynamical matrix','c/dyn_mat.c'),('array preparation',FC)],['ForceConstants.calculate_qpoint_phonon_modes','ForceConstants.calculate_qpoint_frequencies'])
p('P34','Files of every supported format load the same in the tools as in the API',
  'Given a file of any supported kind (CASTEP .phonon, .castep_bin, .check; Phonopy mesh, band or qpoints files, phonopy.yaml under any name, force_constants.hdf5 with or without BORN; Euphonic JSON) under any name or path, the command-line tools load the same object, of the class its content calls for, that the corresponding reader gives: modes where eigenvectors are present and wanted, otherwise frequencies, or force constants with Born charges where supplied. What the tools then save is what they save for the same data in Euphonic JSON. Unrecognised, incomplete, missing or damaged files are refused with an error.',
  ['inputs','configurations'],'every data set and file layout of each format, name and relative or absolute path, with frequencies only or not',
  'Tests load a few stored files with their usual names.',
  ['euphonic/cli/utils.py','euphonic/readers/castep.py','euphonic/readers/phonopy.py','euphonic/io.py'],
  [('format recognition','euphonic/cli/utils.py load_data_from_file, _load_phonopy_file, _load_euphonic_json')],['euphonic-dos, euphonic-dispersion, euphonic-intensity-map FILE','euphonic.cli.utils.load_data_from_file'])
out = pathlib.Path(__file__).resolve().parent.parent/'properties.jsonl'
out.write_text(''.join(json.dumps(d)+'\n' for d in P))
print(len(P))
