#!/usr/bin/env python3
"""Single source of the property list; writes /verif/properties.jsonl."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text),
        why_tests_cant=why,
        anchors=dict(files=["hermespy/" + f for f in files],
                     state=[dict(name=a, meaning=b, where="hermespy/" + c) for a, b, c in state],
                     mechanism=[dict(name=a, where="hermespy/" + b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

prop("C01", "Dense and sparse signals are one and the same sample stream",
 "A multi-stream complex baseband signal reports the same samples, stream and sample counts, per-stream power and energy, slices and appended content no matter whether it is stored densely or as offset blocks, and converting between both storages or iterating over the blocks loses and invents no sample. Appending, slicing, copying and selecting streams behave like the corresponding operation on the plain two-dimensional sample array. Metadata (sampling rate, carrier frequency, noise power, delay) survives all of these operations.",
 ["inputs", "histories"], "every sample matrix (including silent gaps, leading/trailing zeros, empty signals, arbitrary block layouts) and every sequence of edit operations",
 "Unit tests build a handful of fixed random matrices; the equivalence has to hold over block layouts, gaps and operation sequences they never combine.",
 ["core/signal_model.py"], [("Signal factory and converters", "core/signal_model.py"), ("SparseSignal block bookkeeping", "core/signal_model.py")],
 [("blocks/offsets", "position of each stored block on the common time axis", "core/signal_model.py")], ["Signal API return values"])

prop("C02", "Superposition is exact addition and never disturbs the added signal",
 "Superimposing one signal onto another adds the samples of the added signal onto exactly the selected receiving streams at the position given by its time offset, leaves every other sample untouched and does not modify the added signal. Signals at different carrier frequencies are added with exactly their carrier offset as frequency shift, and the outcome does not depend on whether the participants are stored densely or as blocks. Resampling keeps the signal content of band-limited signals and its duration.",
 ["inputs", "histories"], "every pair of signals, offsets, stream selections, storage kinds and superposition orders",
 "Tests cover a few aligned dense cases; stream subsets, different lengths, carriers, sparse storage and repeated superposition are combinatorial.",
 ["core/signal_model.py"], [("superimpose", "core/signal_model.py"), ("resample", "core/signal_model.py")], (), ["Signal.superimpose results and operands"])

prop("C03", "Saved objects come back equal, with shared references kept shared",
 "Any serializable object written to a file and read back exposes the same configuration and behaves identically to the original, whatever other objects were written before or after it. Objects referenced several times within one serialized graph are restored as one shared object, and distinct objects are never merged.",
 ["inputs", "histories", "configurations"], "every serializable class with every configuration, in every order of serialization within one file",
 "Tests round-trip a default instance of each class and compare a small allow-list; they do not vary configurations, object graphs or the order in which temporaries are written.",
 ["core/factory.py", "core/drop.py", "core/signal_model.py", "modem", "channel", "fec", "radar", "simulation"],
 [("SerializationProcess / DeserializationProcess", "core/factory.py")],
 [("reference cache", "maps already written objects to their storage location", "core/factory.py")], ["HDF5 files written by Factory / process API"])

prop("C04", "Recorded campaigns replay the recorded drops, in order, unchanged",
 "A scenario that recorded a campaign to a file reproduces on replay exactly the recorded drops, in the recorded order and with the recorded transmitted and received samples and campaign selection. Asking for more drops than were recorded fails with an error instead of inventing data. Switching between default, record and replay operation follows one consistent state machine: illegal transitions are rejected, and stopping always returns the scenario to live operation.",
 ["histories", "configurations"], "every interleaving of record, replay, stop, drop and campaign selection on one or several files",
 "Tests record one or two drops of a single scenario in a fixed call order.",
 ["core/scenario.py", "core/drop.py", "simulation/drop.py", "simulation/scenario.py", "hardware_loop/scenario.py"],
 [("scenario mode state machine", "core/scenario.py"), ("drop (de)serialization", "core/drop.py")],
 [("mode / file handle / drop counter", "which campaign is active and where it stands", "core/scenario.py")], ["Scenario.record/replay/drop/stop"])

prop("C05", "Monte Carlo samples are taken at, and credited to, their own grid point",
 "Every artifact counted towards a parameter combination of a Monte Carlo campaign was produced by a run in which all swept parameters had exactly that combination's values, for any number, order and priority of swept dimensions. No generated sample is lost or credited twice, every combination receives the requested number of samples unless its stopping criterion is met, and the reported grid axes match the axes of the results.",
 ["inputs", "schedules", "configurations"], "every grid shape, dimension order, priority, batch size, number of samples and actor scheduling",
 "Tests run one small two-dimensional grid and look only at result types, never at which parameter values produced which sample.",
 ["core/pymonte/monte_carlo.py", "core/pymonte/actors.py", "core/pymonte/grid.py", "simulation/simulation.py"],
 [("queue manager", "core/pymonte/actors.py"), ("sample collector", "core/pymonte/actors.py"), ("grid dimension configuration", "core/pymonte/grid.py")],
 [("task counts per section", "how many samples were handed out/collected", "core/pymonte/actors.py")], ["artifacts per section", "evaluator input events"])

prop("C06", "Skipping unaffected simulation stages never changes what is simulated",
 "When consecutive parameter combinations differ only in parameters declared to affect late stages, a Monte Carlo worker may reuse earlier stage outputs, but every stage whose inputs changed is executed again before it is evaluated. The configuration seen by each executed stage and by the evaluators equals the parameter combination being sampled.",
 ["inputs", "histories", "configurations"], "every assignment of first/last impacted stages to dimensions and every order of grid sections",
 "Tests use dimensions without stage annotations, or a single annotated dimension on a fixed order.",
 ["core/pymonte/actors.py", "core/pymonte/grid.py", "simulation/simulation.py"],
 [("stage skipping", "core/pymonte/actors.py"), ("first_impact/last_impact registration", "core/pymonte/grid.py")], (), ["stage execution log"])

prop("C07", "Aggregated results are the statistics of the collected artifacts",
 "For every evaluator the reported scalar results equal the arithmetic statistics of the artifacts collected for each grid section, independent of their arrival order, with each artifact contributing exactly once. The confidence-based stopping decision is only ever taken after the configured minimum number of samples and when the configured tolerance and confidence are reached.",
 ["inputs", "histories"], "every sequence of artifacts and arrival order",
 "Tests feed constant artifacts or check a single mean.",
 ["core/pymonte/scalar.py", "core/pymonte/evaluation.py", "core/pymonte/artifact.py"], [("ScalarEvaluationResult", "core/pymonte/scalar.py"), ("evaluation results", "core/pymonte/evaluation.py")], (), ["EvaluationResult.to_array"])

prop("C08", "Identical seeds reproduce identical simulations",
 "Two identically constructed simulations given the same seed produce bit-identical transmissions, channel realizations, noise and receptions for every subsequent drop, and re-seeding restarts the identical sequence. Random components added to a parent draw from the parent's stream, so the parent's seed alone determines every result; independent realizations within one simulation are not repeats of one another.",
 ["inputs", "histories", "configurations"], "every scenario composition, seed and sequence of drops",
 "Tests seed individual components; reproducibility of whole compositions across processes and orders is not tested.",
 ["core/random_node.py", "simulation/scenario.py", "simulation/simulated_device.py", "channel/channel.py", "modem/modem.py"], [("RandomNode mother chain", "core/random_node.py")], [("random mother / generator", "source of randomness of each component", "core/random_node.py")], ["digests of drops"])

prop("C09", "Poses and coordinate frames compose consistently at all times",
 "Positions, orientations and poses converted between matrix, Euler angle, quaternion, local and global representations describe the same rigid motion, so round trips and compositions agree with plain matrix algebra. Objects attached to a reference frame always report the global pose implied by the current poses of all their ancestors, after any sequence of moves, rotations, look-at commands and re-attachments. Trajectory-driven devices report at every timestamp the pose and velocity of their trajectory.",
 ["inputs", "histories"], "every pose, every frame hierarchy and every sequence of pose updates and queries",
 "Tests query caches once after one update and sample few angles.",
 ["core/transformation.py", "simulation/simulated_device.py", "simulation/drop.py", "simulation/animation.py"], [("Transformation", "core/transformation.py"), ("Transformable cache", "core/transformation.py")], [("cached forward/backward transformation", "memoized global pose", "core/transformation.py")], ["forwards/backwards transformation", "device states"])

prop("C10", "Antenna array responses follow the array geometry",
 "The response of an antenna array equals, for every direction, frequency and array pose, the plane- or spherical-wave phase implied by the antenna positions weighted by the polarized antenna patterns, with the same result whether the array is queried directly or through a device state snapshot. Port, antenna and transmit/receive counts, topologies and orderings are mutually consistent, and a state snapshot does not change when the array is modified later.",
 ["inputs", "configurations"], "every array topology, antenna type mix, pose, direction and frequency",
 "Tests check one planar array and fixed directions.",
 ["core/antennas.py", "simulation/antennas.py", "core/state.py"], [("phase responses", "core/antennas.py"), ("AntennaArrayState", "core/antennas.py")], (), ["array response matrices"])

prop("C11", "Forward error correction decodes what it encoded",
 "For every chain of bit encoders, decoding the encoded bits of any message returns that message at the requested length, and block sizes, code lengths and rates announced beforehand match the bits actually produced. Codes with redundancy additionally correct every error pattern within their correction capability.",
 ["inputs", "configurations", "histories"], "every encoder chain, block size, message length, error pattern within capability and sequence of frames",
 "Tests check single encoders with one block size and few chains.",
 ["fec/coding.py", "fec/block_interleaver.py", "fec/repetition_encoder.py", "fec/cyclic_redundancy_check.py", "fec/scrambler.py"], [("EncoderManager", "fec/coding.py")], (), ["encoded/decoded bit vectors"])

prop("C12", "Bit-to-symbol mapping is an invertible unit-power constellation",
 "Each supported constellation maps all bit patterns one-to-one onto symbols of unit average power, and noiseless detection inverts the mapping for every bit sequence and modulation order. Hard decisions select the nearest constellation point, and the sign of soft decisions always agrees with the hard decision.",
 ["inputs", "configurations"], "every modulation order, bit sequence, received point and noise variance",
 "Tests sample a few random sequences per order at noiseless points.",
 ["modem/tools/psk_qam_mapping.py"], [("get_symbols/detect_bits", "modem/tools/psk_qam_mapping.py")], (), ["symbols and detected bits"])

prop("C13", "Every waveform demodulates its own modulation without error",
 "For every communication waveform and valid configuration, mapping, placing, modulating, demodulating, picking and unmapping a bit sequence returns exactly that sequence, with the announced number of data symbols, bits and samples per frame. Modulated frames contain only defined samples, and reference and guard sections occupy exactly the configured positions. Flat channels are estimated exactly, known channels are equalized exactly, and synchronization reports frames where they start.",
 ["inputs", "configurations"], "every waveform type, frame structure, modulation order, oversampling factor, bandwidth and payload",
 "Tests cover one configuration per waveform; interactions of prefixes, guards, pilots, oversampling and subcarrier counts are combinatorial.",
 ["modem/waveform.py", "modem/waveform_single_carrier.py", "modem/waveform_chirp_fsk.py", "modem/waveforms"], [("modulate/demodulate", "modem/waveform.py")], (), ["frame samples and bits"])

prop("C14", "Precoding followed by its decoding restores the streams",
 "Symbol and signal precoding chains applied at the transmitter and the matching decoding chains applied at the receiver restore the original data streams for any full-rank channel state, without changing stream, block or symbol counts beyond the announced rates. Space-time block codes recover the symbols from every non-degenerate channel and diversity combiners never deliver a stream worse than the announced combination of its inputs.",
 ["inputs", "configurations"], "every precoder chain, stream count, block count and channel state",
 "Tests use one channel draw per scheme.",
 ["core/precoding.py", "modem/precoding"], [("precoding chains", "core/precoding.py"), ("space time codes", "modem/precoding/space_time_block_coding.py")], (), ["stated symbols"])

prop("C15", "An ideal link delivers every transmitted bit",
 "Two modems with matching configuration connected over distortion-free devices and an ideal channel deliver every transmitted frame and bit unchanged, in order, for every waveform, error correction chain, frame format, symbol coding, MIMO configuration and requested duration. The transmission and reception records are consistent with each other and with the signals they describe, and the transmitted average power equals the configured power.",
 ["inputs", "configurations", "histories"], "every modem configuration, number of frames and drop sequence",
 "Integration tests cover a short list of fixed links and tolerate non-zero error rates.",
 ["modem/modem.py", "modem/frame_generator", "modem/bits_source.py", "simulation/simulated_device.py", "core/device.py"], [("modem transmit/receive", "modem/modem.py")], (), ["CommunicationTransmission / CommunicationReception"])

prop("C16", "Channel propagation equals applying the reported channel state",
 "For every channel model and realization, propagating a signal gives the same samples as applying the channel state information reported for the same realization, sample time, bandwidth and carrier. Propagation is linear in the signal, preserves block offsets, causes no output before the first input and scales energy as announced by the channel gain.",
 ["inputs", "configurations"], "every channel model, parameterization, antenna configuration and input signal",
 "Tests compare state and propagation for one configuration per model, mostly single antenna.",
 ["channel/channel.py", "channel/ideal.py", "channel/delay", "channel/fading", "channel/radar", "channel/cdl", "core/channel.py"], [("ChannelSample.propagate/state", "channel/channel.py")], (), ["propagated signals and CSI"])

prop("C17", "Channel realizations are immutable, reciprocal and spatially consistent",
 "Once realized, a channel returns the same sample whenever it is evaluated for the same device states, however often and in whichever order samples are drawn, and later changes to the channel model do not alter existing realizations. The reverse link of a sample is the reciprocal of the forward link, random parameters vary continuously with position and keep their declared distribution, and registered sample hooks fire exactly once for each matching sample.",
 ["inputs", "histories"], "every channel model, realization, device pair, position and sampling order",
 "Tests sample each realization once for one position.",
 ["channel/channel.py", "channel/consistent.py", "channel/delay", "channel/fading", "channel/cdl", "channel/radar"], [("ChannelRealization.sample", "channel/channel.py"), ("consistent random variables", "channel/consistent.py")], (), ["channel samples", "hook call log"])

prop("C18", "Channel state information transforms are lossless and consistent",
 "Converting channel state between impulse response and frequency representation and back, concatenating, slicing, transposing to the reciprocal link and building its linear operator describe one and the same channel. Applying the state to a signal equals its linear operator applied to the samples and never modifies the signal.",
 ["inputs"], "every stream count, delay spread, number of samples and storage format",
 "Tests use one dense tensor shape.",
 ["core/channel.py"], [("ChannelStateInformation", "core/channel.py")], (), ["CSI tensors"])

prop("C19", "Each simulated receiver gets every transmitter exactly once",
 "In every simulation drop the signal impinging on a device is the sum over all transmitting devices of that device's emission propagated once over the one channel configured for the pair, with unset pairs using the default and both directions of a pair sharing one realization. Adding devices and adding, replacing and removing operators and channels keeps this pairing consistent for all later drops.",
 ["histories", "configurations"], "every sequence of device/channel/operator edits and every drop",
 "Tests use two or three devices in one fixed arrangement.",
 ["simulation/scenario.py", "core/scenario.py", "simulation/simulation.py", "simulation/simulated_device.py"], [("channel matrix", "simulation/scenario.py"), ("propagate", "simulation/scenario.py")], [("channel links", "channel assigned to each device pair", "simulation/scenario.py")], ["channel sample log", "device receptions"])

prop("C20", "Devices route operator signals to their ports with the configured power",
 "A device's emission is the superposition of all of its operators' signals, each on exactly the ports that operator selected and at its configured carrier offset and power, and each receiving operator is handed exactly its selected ports. Every registered transmitter and receiver contributes exactly once per device transmission or reception, irrespective of registration and removal history.",
 ["inputs", "histories", "configurations"], "every operator set, port selection, power setting and add/remove sequence",
 "Tests register one or two operators using all ports.",
 ["core/device.py", "core/operators.py", "simulation/simulated_device.py"], [("operator slots", "core/device.py"), ("transmit/receive processing", "simulation/simulated_device.py")], (), ["DeviceTransmission / DeviceReception"])

prop("C21", "Hardware impairment models respect their defining characteristic",
 "Radio-frequency chains process signals exactly as the connected graph of their blocks prescribes, and ideal chains are transparent. Amplifiers follow their amplitude and phase characteristic for every input level, converters never leave their quantization range or exceed their quantization error bound, splitters, combiners, shifters, mixers and filters conserve or transform the signal as declared, and injected thermal noise has the configured power.",
 ["inputs", "configurations"], "every block, parameterization, chain topology and input amplitude",
 "Tests check one amplitude sweep per block and two chain layouts.",
 ["simulation/rf"], [("RF chain graph propagation", "simulation/rf/chain.py"), ("RF blocks", "simulation/rf/blocks")], (), ["RF signals at block ports"])

prop("C22", "Leakage, coupling and calibration cancel as configured",
 "Transmit-receive leakage, mutual coupling and their calibrations act linearly with exactly the configured responses, so that a perfect calibration of antennas, delay or leakage restores the undistorted signal. Triggered devices sharing a trigger see the same trigger instant and every reception is aligned to it.",
 ["inputs", "configurations"], "every isolation, coupling, calibration and trigger model and signal",
 "Tests use scalar examples.",
 ["simulation/isolation", "simulation/coupling", "hardware_loop/calibration", "hardware_loop/physical_device.py", "simulation/simulated_device.py"], [("isolation/coupling models", "simulation/isolation"), ("calibrations", "hardware_loop/calibration"), ("trigger models", "simulation/simulated_device.py")], (), ["leaked, coupled, calibrated signals"])

prop("C23", "Beamformers steer gain to their focus and nulls to interferers",
 "For every array geometry, focus direction and carrier, transmit and receive beamforming weights yield the announced gain towards the focus, and no direction exceeds the focus gain for conventional beamforming; null steering suppresses every configured interferer and adaptive beamforming keeps the focus distortionless. Encoded and decoded stream counts follow the announced mapping and probing a plane wave peaks at its true direction.",
 ["inputs", "configurations"], "every array, focus, carrier frequency and impinging direction",
 "Tests evaluate a fixed set of angles on one array.",
 ["beamforming", "simulation/beamforming.py"], [("beamformer weights", "beamforming")], (), ["beamformed signals"])

prop("C24", "Radar processing locates targets at their true range, speed and angle",
 "For every radar waveform configuration and unambiguous target position, the estimated radar cube peaks at the bin of the target's range, radial velocity and direction, with bins consistently labelled in every unit. Detectors report exactly the cells satisfying their criterion, with positions, velocities and powers matching the cube, and joint communication and sensing waveforms deliver the same ranges without harming the communication.",
 ["inputs", "configurations"], "every waveform configuration, target range/velocity/angle and cube",
 "Tests place one target and check a single range.",
 ["radar", "jcas", "channel/radar"], [("FMCW estimation", "radar/fmcw.py"), ("cube and detectors", "radar/cube.py"), ("jcas operators", "jcas")], (), ["radar cubes and point clouds"])

prop("C25", "Performance evaluators report the true error and quality figures",
 "Bit, block and frame error rates, throughput, error vector magnitude, signal power, interference and detection figures equal their textbook definition applied to the transmitted and received data for every pairing of lengths, block sizes, missing frames and error patterns. A perfect link always evaluates to zero error and a fully corrupted one to the corresponding worst case.",
 ["inputs", "histories"], "every transmitted/received data pair, block size and loss pattern",
 "Tests use equal-length vectors with one error pattern.",
 ["modem/evaluators.py", "core/evaluators.py", "radar/evaluators.py", "simulation/evaluators"], [("evaluators", "modem/evaluators.py")], (), ["evaluation artifacts"])

prop("C26", "Processing never alters the caller's data",
 "Transmitting, propagating, receiving, coding, decoding, beamforming, detecting, evaluating and serializing leave the signals, arrays, bits and states handed to them bit-identical, so results of earlier stages may be reused in any order. Returned results are independent of one another: modifying one never changes another or the component that produced it.",
 ["inputs", "histories"], "every processing stage, input and repetition",
 "Tests inspect outputs only and feed each input once.",
 ["core", "channel", "modem", "beamforming", "fec", "radar", "simulation"], [("copy discipline of processing stages", "core/signal_model.py")], (), ["digests of inputs before/after each call"])

prop("C27", "Rejected configurations never take effect",
 "When assigning a value of the expected type to a property or calling a configuration method fails with an error, the object keeps exactly the configuration it had before and continues to work. Accepted values are reported back exactly as set, also through views, aliases and unit conversions of the same quantity.",
 ["inputs", "histories", "configurations"], "every configurable property of every component and every valid or invalid value sequence",
 "Tests assert that an error is raised for one bad value, but not that state is preserved, nor combinations of values.",
 ["core", "channel", "modem", "fec", "radar", "simulation", "beamforming"], [("property setters", "core/device.py")], (), ["property values before/after"])

prop("C28", "Decibel and linear views of a quantity always agree",
 "Quantities handled in decibel or linear scale convert losslessly into one another, and arithmetic on logarithmic scalars, sequences and arrays equals the same arithmetic carried out on the linear values. Sweeping a parameter in either scale configures the identical linear value.",
 ["inputs", "configurations"], "every value, operator, sequence shape and mixed operand type",
 "Tests check a few constants.",
 ["core/logarithmic.py", "tools/math.py", "core/pymonte/grid.py"], [("Logarithmic number types", "core/logarithmic.py")], (), ["converted values"])

prop("C29", "Noise injection matches the configured level",
 "The noise added to received or processed signals has exactly the statistics announced by the configured noise level: zero mean, circular symmetric, white across samples and independent across streams, with the announced power for any bandwidth and reference. A given noise realization is reproducible and adding it does not otherwise alter the signal.",
 ["inputs", "configurations"], "every noise model, level, bandwidth, reference operator and signal",
 "Tests compare one power estimate with loose tolerance.",
 ["simulation/rf/noise", "simulation/simulated_device.py", "core/random_node.py"], [("noise levels and models", "simulation/rf/noise")], (), ["noise samples"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
