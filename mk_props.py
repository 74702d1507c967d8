import json
B='qiskit/ignis/'
RB=B+'verification/randomized_benchmarking/'
P=[]
def p(id,title,statement,over,text,why,files,mech,**k):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],**k))
    P.append(d)
p('P01','CNOT-dihedral elements act exactly as the operators they denote',
 'For every element of the CNOT-dihedral group, composing (either order), inverting, tensoring, importing a circuit of group gates and synthesising a circuit all give an element or circuit whose action on every computational basis state equals that of the operator product, inverse, tensor product or circuit, up to a global phase. Elements outside the group (singular linear part, foreign gates, angles off the pi/4 grid, wrong qubits) are rejected rather than silently changed. Randomly drawn elements are always valid members of the group.',
 ['inputs'],'all phase polynomials, shifts and invertible linear maps of 1-3 qubits (and 4 for gate updates), all gate words within the bounds',
 'tests multiply a few fixed or random elements and compare operators; the group has thousands of elements already on 2 qubits and a wrong update hides in one coefficient',
 [RB+'dihedral.py'],[('SpecialPolynomial arithmetic',RB+'dihedral.py SpecialPolynomial'),('group operations',RB+'dihedral.py CNOTDihedral'),('synthesis and circuit import',RB+'dihedral.py decompose_cnotdihedral_*, append_circuit'),('random element',RB+'dihedral.py random_cnotdihedral')])
p('P02','Randomized-benchmarking sequences multiply to the identity',
 'Every circuit produced by the randomized-benchmarking generator (standard, simultaneous, interleaved, purity, and CNOT-dihedral in both bases) applies, on each set of qubits in the pattern, the requested number of independently drawn group elements followed by their exact inverse, so that without noise it returns every qubit to its start. Interleaved circuits use the same random elements with the given element after each of them, longer sequences extend shorter ones, qubits are measured in pattern order, and lengths and names follow the request. A given random seed fixes the draws and gives every element its own seed; invalid patterns, multipliers, elements and groups are rejected.',
 ['inputs'],'all draws of group elements, patterns of up to two sets, length vectors, multipliers, alignment and seeds within the bounds',
 'tests simulate a few generated circuits; a wrong inverse, order or wiring for one pattern/multiplier/length combination is not sampled, and an inverse that is right for commuting draws passes',
 [RB+'circuits.py',RB+'rb_groups.py'],[('sequence builder',RB+'circuits.py randomized_benchmarking_seq'),('group dispatch',RB+'rb_groups.py RBgroup'),('input validation',RB+'circuits.py check_pattern, handle_length_multiplier, handle_interleaved_elem')])
p('P03','Randomized-benchmarking analysis reports the error rates its data imply',
 'From the counts of randomized-benchmarking circuits, the fitters compute survival probabilities, (for purity) purities, (for CNOT-dihedral) combined Z/X decays, their means and standard deviations over seeds, hand exactly that problem to the curve fit, and turn the fitted decay into the error per group element by the published formulas, including its propagated uncertainty, for each pattern. The results do not depend on how the experiments are split over result objects or in which order they are added, and every data point is used exactly once. The conversions between error per Clifford, error per gate and coherence-limited error follow their formulas.',
 ['inputs','histories'],'all counts of up to 3 measured qubits, 2 seeds and lengths; all splits over results; all fitted parameters within the fit bounds',
 'tests compare one stored data set per fitter; splitting, order, several patterns and unequal seeds are not sampled',
 [RB+'fitters.py',RB+'rb_utils.py'],[('RB statistics and fit',RB+'fitters.py RBFitter, InterleavedRBFitter, PurityRBFitter, CNOTDihedralRBFitter'),('error-rate conversions',RB+'rb_utils.py')])
TO=B+'verification/tomography/'
p('P06','Tomography uses every count with its right weight',
 'Marginalising, combining and taking Pauli expectations of measurement counts equal the sums over the matching outcomes, for any set of outcomes present, any subset of qubits and any split into classical registers, without changing their arguments. Tomography fitters attribute to each measurement (and preparation) setting the total counts of all results given for it, whether circuits are given as objects or names and whatever other registers the circuits have, and hand the estimator exactly the frequencies and binomial weights of those counts; a missing circuit is an error.',
 ['inputs','histories'],'all counts and sets of present outcomes of up to 3 qubits; 1-2 qubit tomography; up to 3 results in any split',
 'tests fit simulated data and check a fidelity threshold; a lost outcome, a wrong weight or a double-counted job changes the answer by less than the threshold',
 [TO+'data.py',TO+'fitters/base_fitter.py'],[('counts arithmetic',TO+'data.py'),('collection of data, weights',TO+'fitters/base_fitter.py TomographyFitter')])
p('P07','State and process tomography reconstruct the true state or channel',
 'For every state or linear map, the circuits generated for a preparation/measurement basis, together with the matrices the basis associates with its labels, are tomographically consistent: exact outcome probabilities of the generated circuits give back exactly that state or Choi matrix from the fitter, for every subset and order of measured and prepared qubits, built-in and custom bases, and circuits given as objects or labels. The positivity correction returns the nearest positive matrix of the requested trace.',
 ['inputs'],'all Hermitian matrices / Choi matrices of 1-2 tomographed qubits (up to 3 in the circuit), Pauli, SIC and custom bases, all qubit orders within the bounds; all eigenvalue spectra for the correction',
 'tests reconstruct a few named states with a fidelity threshold; a swapped qubit order or a wrong basis element shows only for states without the symmetry',
 [TO+'basis/circuits.py',TO+'basis/paulibasis.py',TO+'basis/sicbasis.py',TO+'basis/tomographybasis.py',TO+'fitters/base_fitter.py',TO+'fitters/state_fitter.py',TO+'fitters/process_fitter.py',TO+'fitters/lstsq_fit.py'],[('circuit generation',TO+'basis/circuits.py'),('basis matrices',TO+'basis/paulibasis.py, sicbasis.py, tomographybasis.py'),('reconstruction',TO+'fitters/base_fitter.py fit'),('positivity correction',TO+'fitters/lstsq_fit.py make_positive_semidefinite')])
p('P08','Gate set tomography recovers the gate set up to gauge and optimises the stated objective',
 'The gate-set-tomography circuits apply the preparation sequence, the gate and the measurement sequence named by their label, in that order, on the requested qubit. Linear inversion solves the Gram-matrix equations of the measured probabilities. On exact data of a noisy gate set, the maximum-likelihood objective is the sum of squared deviations of predicted from measured probabilities: it is zero at the true gate set, the physicality constraints hold there and the true gate set is what is returned, while unnormalised states violate a constraint; the gauge objective is the distance to the ideal gate set, starting from it.',
 ['inputs'],'all one-qubit maps (12 parameters per gate) and states for the circuits; symbolic probabilities for the inversion; Pauli noise, state and readout parameters for the optimisation',
 'tests run a simulator and compare with loose tolerance; a wrong gate order or transposed map is invisible for the nearly symmetric gates they use',
 [TO+'basis/gatesetbasis.py',TO+'basis/circuits.py',TO+'fitters/gateset_fitter.py'],[('gate set basis and SPAM',TO+'basis/gatesetbasis.py GateSetBasis'),('linear inversion',TO+'fitters/gateset_fitter.py linear_inversion'),('gauge and ML optimisation',TO+'fitters/gateset_fitter.py GaugeOptimize, GST_Optimize')])
QV=B+'verification/quantum_volume/'
p('P11','Quantum-volume circuits and statistics follow the heavy-output definition',
 'The measured and the ideal circuit of a trial contain the same model circuit on the requested qubits, bit i measuring the i-th listed qubit, and a seed reproduces them. The heavy outputs of a circuit are exactly the outcomes whose ideal probability is above the median, and the heavy-output counts, experimental and ideal mean probabilities and their errors equal their definition over all trials, however the measured results are split over jobs and in whatever order they are added. A depth is reported successful exactly when its mean heavy-output probability exceeds 2/3 by more than two standard deviations.',
 ['inputs','histories'],'all amplitudes and counts within the bounds; all splits of the counts over results',
 'tests use one stored data set; ties at the median, split jobs and values near the threshold are not in it',
 [QV+'circuits.py',QV+'fitters.py'],[('model circuits',QV+'circuits.py qv_circuits'),('QVFitter statistics',QV+'fitters.py QVFitter')])
TC=B+'verification/topological_codes/'
p('P05','The repetition code detects and corrects the errors it promises to',
 'For every history of bit flips on code and ancilla qubits, each syndrome round of the generated circuits records the parity of neighbouring code qubits and the readout records the code qubits; processed results keep every count and consist of the two outer code bits followed by the changes of the syndrome from round to round. The syndrome graph connects exactly the elements that one Pauli error can flip; matching decoding returns a correction of minimum total distance in that graph, also for arbitrary edge distances, and hence recovers the logical value after any fewer than d/2 flips. Edge weights, and the logical error probabilities of matching, post-selection and look-up-table decoding, follow their definition for all counts.',
 ['inputs','histories'],'all flip histories, result strings and counts for distances up to 5 and up to 3 rounds within the bounds; all edge distances on selected edges',
 'the only test checks that error rates fall with distance for one noise model; weighted decoding is not tested at all',
 [TC+'circuits.py',TC+'fitters.py'],[('code circuits, processing',TC+'circuits.py RepetitionCode'),('decoders',TC+'fitters.py GraphDecoder, postselection_decoding, lookuptable_decoding')])
MI=B+'mitigation/'
p('P09','Measurement-error mitigation inverts the calibrated readout error',
 'Calibration circuits prepare and measure exactly the basis states their names say on the requested qubits. The calibration matrix (complete or tensored) is made of the normalised counts of those circuits, however the results are split or added; subsets and readout fidelity follow their definition. For every calibration matrix and counts, the filters return the inverse applied to the data (pseudo-inverse) or hand exactly the constrained least-squares problem to the optimiser, for every accepted input form (counts dictionary with any outcomes present, list, several blocks in one list, Result) and for the matrices and labels the filter has at that moment, without changing their inputs, and reject data of the wrong shape or an unknown method.',
 ['inputs','histories'],'all counts, calibration matrices and data vectors of up to 3 qubits, all layouts of qubits and tensor factors within the bounds',
 'tests use a few calibration matrices near the identity and compare with tolerance; a transposed factor or a permuted label hides in symmetric data',
 [MI+'measurement/circuits.py',MI+'measurement/fitters.py',MI+'measurement/filters.py'],[('calibration circuits',MI+'measurement/circuits.py'),('calibration matrices',MI+'measurement/fitters.py CompleteMeasFitter, TensoredMeasFitter'),('filters',MI+'measurement/filters.py MeasurementFilter, TensoredFilter')])
p('P10','Mitigated expectation values are those of the unmitigated readout model',
 'The expectation-value calibration circuits prepare the states they are labelled with, and the fitted complete, tensored and CTMP mitigators hold the assignment matrices (or generator rates) implied by their counts. Assignment and mitigation matrices of any subset of qubits, and the mitigated expectation value, its standard deviation and the mitigation overhead of any diagonal observable, equal their definition for every calibration, counts, set and order of qubits and classical bits. The CTMP generator has zero column sums and non-negative rates in the calibrated direction, and each CTMP sample applies exactly the drawn generators and sign.',
 ['inputs'],'all calibration matrices, counts, diagonal observables and qubit/clbit subsets of up to 3 qubits; all random draws of the CTMP sampler within the bounds',
 'tests compare mitigated values of a few states with loose tolerance and only the natural qubit order',
 [MI+'expval/circuits.py',MI+'expval/fitter.py',MI+'expval/utils.py',MI+'expval/base_meas_mitigator.py',MI+'expval/complete_mitigator.py',MI+'expval/tensored_mitigator.py',MI+'expval/ctmp_mitigator.py',MI+'expval/ctmp_fitter.py',MI+'expval/ctmp_generator_set.py'],[('calibration and fit',MI+'expval/fitter.py, ctmp_fitter.py, ctmp_generator_set.py'),('mitigators',MI+'expval/*_mitigator.py'),('expectation values',MI+'expval/utils.py')])
AC=B+'verification/accreditation/'
p('P04','Accreditation pads and traps are faithful, and acceptance means what it says',
 'For every target circuit and every choice of random bits, a one-time-padded circuit together with the returned correction reproduces exactly the outcome distribution of the target, whatever the wiring of qubits to classical bits, the two-qubit gate or the coupling map. Every trap circuit has the two-qubit gates of the target, returns all zeros after correction when there is no noise, and any Pauli error after a two-qubit layer is detected by at least half of the trap choices. A run is accepted exactly when all its traps give zeros, the outputs of accepted runs (and only those) are kept, and the reported bound and confidence follow the published formula for the current data and theta; malformed data and unsupported circuits are rejected with an error.',
 ['inputs','histories'],'all pad and trap bits within the bounds, arbitrary single-qubit gates, targets of up to 4 qubits; all single-shot outcomes; all thetas',
 'tests only count circuits and replay one stored data set; a wrong Pauli propagation shows only for particular random bits',
 [AC+'circuits.py',AC+'qotp.py',AC+'fitters.py'],[('one-time pad',AC+'qotp.py layer_parser, QOTP_fromlayers, QOTPCorrectCounts'),('trap circuits',AC+'circuits.py AccreditationCircuits'),('acceptance and bound',AC+'fitters.py AccreditationFitter')])
CH=B+'characterization/'
p('P12','Characterization experiments measure the quantity they report',
 "For every gate time, number of gates, artificial error and idle noise within the model, the circuits of the T1, T2*, T2 (any number of echoes), ZZ and gate-calibration experiments give, on each measured classical bit, exactly the probability that the model curve of the matching fitter predicts at the delay or repetition returned in xdata, for every list of qubits; rabi and drag schedules play the requested pulse on, and measure, each requested qubit, and updated u2/u3 pulses implement the gate's angles. The fitters' data points are the shot-weighted fractions (or, for IQ data, the signed distances along the signal line of the shot-weighted means) of the named circuits and series however the results are split or added, the fit problem handed to the optimiser is the stated one with errors that are never zero, and times, frequencies, angle errors and amplitudes follow from the fitted parameters by their definition.",
 ['inputs','histories'],'all gate times, angles, noise parameters, counts and IQ values within the bounds; qubit lists of 1-2 out of 4; all splits of the results',
 'tests fit one simulated data set per experiment with loose tolerance and regular qubit order; IQ data and schedules are hardly tested',
 [CH+'characterization_utils.py',CH+'fitters.py',CH+'coherence/circuits.py',CH+'coherence/fitters.py',CH+'gates/circuits.py',CH+'gates/fitters.py',CH+'hamiltonian/circuits.py',CH+'hamiltonian/fitters.py',CH+'calibrations/pulse_schedules.py',CH+'calibrations/fitters.py',CH+'calibrations/ibmq_utils.py'],[('experiment circuits',CH+'coherence/circuits.py, gates/circuits.py, hamiltonian/circuits.py'),('pulse schedules',CH+'calibrations/pulse_schedules.py, ibmq_utils.py'),('data and fits',CH+'fitters.py and */fitters.py')])
DI=B+'measurement/discriminator/'
p('P13','Discriminators are trained on, and applied to, exactly the data they are given',
 "The training rows of a discriminator are the I and Q values of the masked qubits of every shot (or average) of the chosen calibration schedules, each paired with the expected state of that schedule, whether schedules are named, given as objects or found in the results, however the data is split over results, and data added later extends them. Discriminated rows are scaled exactly as the training rows were. The discrimination filter returns, for every experiment with level-1 data and only those, the labels and counts of its own shots in the base of the labels, and leaves its input unchanged.",
 ['inputs','histories'],'all IQ values, labels, qubit masks, shot numbers and splits over results within the bounds',
 'tests train on a few Gaussian clouds with one result; a row paired with the wrong label or shots credited to the neighbouring experiment passes them',
 [DI+'discriminators.py',DI+'iq_discriminators.py',DI+'filters.py'],[('training data',DI+'discriminators.py BaseDiscriminationFitter, iq_discriminators.py get_xdata/get_ydata/format_iq_data'),('filter',DI+'filters.py DiscriminationFilter')])
EN=B+'verification/entanglement/'
p('P14','Entanglement experiments prepare GHZ states and read out their coherence',
 'For every angle, the linear and the parallelised GHZ circuits prepare (|0..0>+|1..1>)/sqrt 2 on the requested number of qubits; the multiple-quantum-coherence circuits (with given or parametrised angle) return to zero with probability (1+cos n d)/2 and flip only the first qubit otherwise, the parity-oscillation circuits have parity (-1)^n cos n d, and qubit i is measured into classical bit i (or only the first qubit). On every connected coupling map and for every set of CNOT errors the parallelised circuits use only coupled pairs, spread from entangled to fresh qubits, use a qubit at most once per step, reach every qubit, place qubits injectively and use the returned layout in all parts. Parities, spectra, fidelities and their bounds equal their definition on the raw and on the mitigated data respectively.',
 ['inputs'],'all angles, all CNOT errors on seven coupling maps of up to 7 qubits, 2-5 entangled qubits; all counts, signals and populations within the bounds',
 'the test module cannot even be imported with the installed terra; it would only check counts of two-qubit states',
 [EN+'linear.py',EN+'parallelize.py',EN+'analysis.py'],[('linear circuits',EN+'linear.py'),('parallelised circuits',EN+'parallelize.py BConfig'),('analysis',EN+'analysis.py')])
LO=B+'logging/'
p('P15','The Ignis log keeps what was logged and the reader returns exactly what was asked for',
 'Every value passed to the Ignis logger while it is configured is written, once, to the configured log file with its time stamp, rotation loses no line within its limits, and the reader returns exactly the entries with the requested keys between the requested times, in order of time.',
 ['histories'],'all configurations, keys, values and times',
 'tests write a handful of lines with one configuration',
 [LO+'ignis_logging.py',LO+'ignis_log_reader.py'],[('logger',LO+'ignis_logging.py'),('reader',LO+'ignis_log_reader.py')])
P.sort(key=lambda x:x['id'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
