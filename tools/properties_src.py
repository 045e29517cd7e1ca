"""Source of properties.jsonl (tools/gen_meta.py writes it)."""

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(
        dict(
            id=id, title=title, statement=" ".join(statement.split()),
            quantifier=dict(over=over, text=" ".join(text.split())),
            why_tests_cant=" ".join(why.split()),
            anchors=dict(
                files=files,
                mechanism=[dict(name=n, where=w) for n, w in mech],
                state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                observe_at=list(observe),
                hook_needed=None,
            ),
        )
    )


IN, CF, HI = "inputs", "configurations", "histories"

# ------------------------------------------------------------- dataloading
prop(
    "D01", "An epoch of the in-memory dataset delivers exactly the promised windows",
    """Iterating an in-memory dataset yields exactly as many batches as its length reports, all of the
    configured batch size except possibly the last one when no batch limit is set. Sampled
    coincidentally, an epoch never returns the same window twice, returns windows in time order when not
    shuffled, and without a batch limit returns every window that starts at a multiple of the stride and
    fits in the data; sampled independently and unshuffled it walks the product of the channels' windows
    with the last channel moving fastest; shuffled with a batch limit every window can be drawn. Every new epoch starts over, epochs of one dataset do not
    disturb each other, and settings that cannot be honoured (more windows than the data holds,
    independent sampling without a batch limit or with a target) are refused.""",
    [CF, HI], """all data lengths, kernel sizes, strides, batch sizes, batch limits, sampling modes, and
    all interleavings of iterating, abandoning and restarting epochs""",
    """Tests sample a handful of lengths and check randomness by mocking the generators; the exactly-once
    and count guarantees quantify over every length/stride/batch combination and every epoch history.""",
    ["ml4gw/dataloading/in_memory_dataset.py", "ml4gw/utils/slicing.py"],
    [("window count and index initialisation", "InMemoryDataset.num_kernels, __len__, init_indices"),
     ("batch loop over index slices", "InMemoryDataset.__iter__")],
    [("epoch cursor", "which windows an epoch has already delivered", "InMemoryDataset.__iter__ locals")],
    ["values yielded by iter(dataset)", "len(dataset)"],
)
prop(
    "D02", "In-memory batches are faithful, channel- and target-aligned windows",
    """Every kernel returned by the in-memory dataset is an unmodified, contiguous run of kernel_size
    samples of the channel in that position, beginning at a multiple of the stride. When sampling
    coincidentally all channels of a batch element and its target window come from the same time; when
    sampling independently each channel draws its own time and all window positions, the last included,
    can occur. Iterating never changes the stored data.""",
    [IN, CF, HI], "all data values, channel counts, precisions and sampling modes, over repeated epochs",
    """Provenance of each returned sample is an all-elements, all-configurations statement; tests compare a
    few batches against indices taken from mocked random generators.""",
    ["ml4gw/dataloading/in_memory_dataset.py", "ml4gw/utils/slicing.py"],
    [("shared index tensor for data and target", "InMemoryDataset.__iter__"),
     ("gathering", "slice_kernels")],
    observe=["values yielded by iter(dataset)"],
)
prop(
    "D03", "Chunked dataset: windows come from the current chunk, batches_per_chunk each",
    """For every chunk the source iterator produces, in order and whatever its shape, the chunked dataset
    yields exactly batches_per_chunk batches of batch_size elements before it asks for the next chunk,
    and it ends when the source ends. Every kernel is a contiguous run of samples inside one element
    and one channel (the channel of that output position) of the chunk being served, with all channels
    of an element sharing one element and time when coincident and drawing them independently
    otherwise; different batch elements are drawn independently. Every element and every admissible start
    can be drawn, and a chunk shorter than the kernel is an error.""",
    [IN, CF, HI], "all sequences of chunks (shapes may vary from chunk to chunk) and all samplings from them",
    """Tests use one constant chunk shape; that a window can never straddle two elements, channels or chunks
    is a statement over all shapes and random draws.""",
    ["ml4gw/dataloading/chunked_dataset.py"],
    [("flattened index arithmetic per chunk", "ChunkedTimeSeriesDataset.__iter__")],
    [("current chunk", "chunk being served and its shape", "ChunkedTimeSeriesDataset.__iter__ locals")],
    ["values yielded by iter(dataset)", "calls of the source iterator"],
)
prop(
    "D04", "HDF5 dataset: each kernel is a contiguous window of one file and its channel",
    """Every kernel of an HDF5 batch is a contiguous run of samples of one file's dataset for the channel in
    that output position. With coincident sampling all channels of an element share file and time, with
    file-level coincidence they share the file but draw times independently, and otherwise both are
    independent per channel; different batch elements are drawn independently. Files are drawn in proportion to their length, never more than the
    configured number of distinct files in one batch, and every admissible start can be drawn.""",
    [IN, CF], "all file sets (counts, lengths, storage layouts), channel lists and sampling modes",
    """Tests check values modulo a stride on two equal files; provenance and the proportion of draws quantify
    over all file sets and random draws.""",
    ["ml4gw/dataloading/hdf5_dataset.py"],
    [("file choice", "Hdf5TimeSeriesDataset.sample_fnames"),
     ("scatter of windows into the batch", "Hdf5TimeSeriesDataset.sample_batch")],
    observe=["values yielded by iter(dataset)"],
)
prop(
    "D05", "Worker processes share an epoch's batches without loss or excess",
    """However many loader workers an HDF5 epoch is divided among, together they produce exactly
    batches_per_epoch batches, with shares differing by at most one, and the same holds for every
    repeated epoch. The dataset's reported length is batches_per_epoch regardless of the number of
    workers.""",
    [CF, HI, "schedules"], "all batch counts, all worker counts (more workers than batches included), repeated epochs",
    """Tests mock one worker configuration; the partition property is over all pairs of batch and worker counts
    and over the workers' interleavings.""",
    ["ml4gw/dataloading/hdf5_dataset.py"],
    [("split of the epoch over workers", "Hdf5TimeSeriesDataset.__iter__")],
    [("worker share", "batches a worker still owes", "Hdf5TimeSeriesDataset.__iter__ locals")],
    ["batches produced per worker"],
)
# ----------------------------------------------------------------- slicing
prop(
    "S01", "Unfolding yields all windows in order, and the exact remainder",
    """Unfolding a 1-, 2- or 3-dimensional timeseries returns, along a new leading axis, every window that
    starts at a multiple of the stride and fits, in order, with batch and channel axes untouched. When
    the remainder is requested it is exactly the samples after the last window (possibly none), so that
    unfolding loses nothing that was not skipped by the stride.""",
    [IN, CF], "all shapes (1 to 3 dimensions, singleton axes, windows as long as the data), window sizes, strides, precisions",
    "Tests cover two sizes per dimension; the index identity must hold for all size, window and stride combinations.",
    ["ml4gw/utils/slicing.py"],
    [("dilated unfold and axis permutation", "unfold_windows")],
    observe=["return value"],
)
prop(
    "S02", "Kernel slicing and sampling respect bounds, offsets and coincidence",
    """Slicing kernels at given indices returns exactly the requested contiguous runs for every element and
    channel, for every supported combination of data and index dimensions, and refuses unsupported ones.
    Randomly sampled kernels always lie inside the data; a non-negative centre offset keeps each
    kernel's right edge within that distance of the centre and its left edge at or before it, a negative one
    keeps the centre at least that far inside the kernel, and all admissible positions can occur;
    impossible requests are refused.
    Coincident sampling uses one position for all channels of an element, independent sampling one per
    channel, and indices returned on request are those that were used.""",
    [IN, CF], "all data ranks and shapes, kernel sizes, counts, offsets (negative, zero, positive) and coincidence modes",
    "Tests draw a few random kernels for a few offsets; the bounds must hold for every draw and every configuration.",
    ["ml4gw/utils/slicing.py"],
    [("gather index construction", "slice_kernels"), ("sampling bounds", "sample_kernels")],
    observe=["return value"],
)
# --------------------------------------------------------------- streaming
prop(
    "N01", "Streaming snapshots equal the windows of the whole stream",
    """Feeding a stream to the snapshotter piece by piece yields, over all calls, exactly the overlapping
    windows of the stream padded on the left with zeros: none skipped, repeated or altered, split into
    the configured channel groups. The state returned by a call is all that is needed to continue: several
    streams can share one snapshotter and restarting one from no state never affects another. Settings that
    are inconsistent (stride not smaller than the snapshot, channel groups not adding up) are refused.""",
    [CF, HI, "schedules"], "all sizes, strides, batch sizes and channel groupings, over all interleavings of updates and restarts of several streams",
    "Tests run a few updates of one stream for a few sizes; equality with offline windowing is over whole histories.",
    ["ml4gw/nn/streaming/snapshotter.py", "ml4gw/utils/slicing.py"],
    [("state carry-over", "Snapshotter.forward"), ("windowing of state plus update", "unfold_windows")],
    [("snapshot", "last size - stride samples of the stream", "returned by Snapshotter.forward")],
    ["tensors returned by each call"],
)
prop(
    "N02", "Online averaging returns the average of all overlapping predictions",
    """Every sample returned by the online averager is the sum of the values the last num_updates predictions
    gave for that moment, divided by num_updates (missing predictions at the start of a stream count as
    zero), and successive calls return consecutive, non-overlapping spans of the timeline. The returned
    state carries everything needed to continue, so that how a stream of predictions is grouped into calls
    and interleaved with other streams does not matter, and an offset only shifts which part of each
    prediction is used.""",
    [CF, HI, "schedules"], "all update, batch and average sizes, offsets and channel counts, over all interleavings of updates and restarts of several streams",
    "Tests check constant inputs for a few sizes; the averaging identity is over entire histories of distinct predictions.",
    ["ml4gw/nn/streaming/online_average.py", "ml4gw/utils/slicing.py"],
    [("weighted scatter of predictions", "OnlineAverager.forward"), ("weights", "OnlineAverager.__init__")],
    [("state", "partial averages of moments not yet returned", "returned by OnlineAverager.forward")],
    ["tensors returned by each call"],
)
# --------------------------------------------------------------- fittables
prop(
    "T01", "Fitted transforms: never usable unfitted, always usable once fitted or loaded",
    """A transform with parameters to fit refuses to be applied until it has been fitted, or has had a
    complete set of saved parameters loaded; an attempt to fit or load that fails, or a load that lacks its
    parameters, does not make an unfitted transform usable. Refitting or loading replaces the parameters
    completely, and a transform restored from the saved parameters of another produces the same output
    as the original. Applying a transform, saving it, or fitting another instance never changes it.""",
    [HI, "fault_sequences"], "all sequences of construct, fit, failed fit, load (complete, incomplete, mismatched), apply, save and copy over several instances",
    "Tests try one or two straight sequences (unfit, fit, load); the guard has to hold along every history, failed steps included.",
    ["ml4gw/transforms/transform.py", "ml4gw/transforms/scaler.py", "ml4gw/transforms/whitening.py", "ml4gw/transforms/snr_rescaler.py"],
    [("built flag", "FittableTransform.build, __call__, _load_from_state_dict")],
    [("built", "whether parameters have been set", "FittableTransform.built")],
    ["exceptions and outputs of calls", "state_dict()"],
)
prop(
    "T02", "Channel scaling uses each channel's own statistics and is inverted exactly",
    """A fitted channel scaler maps each channel of the data it was fitted on to zero mean and unit
    (population) variance, uses for every channel that channel's statistics only, and applies the
    same affine map to any batch of data. Reversing the scaling is the inverse of applying it. A
    regularisation value given to the fit is added to every channel's standard deviation.""",
    [IN, CF, HI], "all channel counts, batch shapes and data, and all sequences of refitting and reversing",
    "Tests check one random example; the statement is over all data and channel layouts.",
    ["ml4gw/transforms/scaler.py"],
    [("fit statistics", "ChannelWiseScaler.fit"), ("affine map and inverse", "ChannelWiseScaler.forward")],
    observe=["return value", "mean and std buffers"],
)
prop(
    "T03", "SNRs follow the matched-filter sum and rescaling reaches the target exactly",
    """The SNR of a response in each interferometer is the square root of four times the sum over in-band
    frequencies (from the highpass, inclusive, to the lowpass, exclusive) of its spectral power over that
    interferometer's PSD times the frequency resolution, and the network SNR is the root sum of squares.
    Each batch element and interferometer is treated with its own response and PSD. Rescaling
    multiplies each waveform by one factor so that its network SNR equals the requested one, and when no
    target is given the rescaler redistributes the batch's own SNRs by a permutation and reports the
    targets it used.""",
    [IN, CF], "all batches of responses, PSDs of any allowed rank, frequency cuts as values or masks, and targets",
    "Tests compare a few random examples to a numpy re-implementation; the sum, mask edges and batch independence quantify over all inputs.",
    ["ml4gw/gw.py", "ml4gw/transforms/snr_rescaler.py"],
    [("SNR integral", "compute_ifo_snr"), ("network combination", "compute_network_snr"),
     ("rescaling", "reweight_snrs, SnrRescaler.forward")],
    observe=["return value"],
)
prop(
    "T04", "Spectral densities follow Welch's definition for every segment and series",
    """The spectral density of a timeseries is the aggregate, by mean or by bias-corrected median, of the
    windowed, mean-removed periodograms of all segments that fit at the given stride, with one-sided
    doubling of every bin except zero frequency and, for even segment lengths, Nyquist. Each channel of each
    batch element gets the result it would get alone, in the same axis layout as the input, and the fast variant, with its default window,
    agrees with the exact one for bins above the two lowest whatever the inputs. Segments overlap by the amount
    asked for, half a segment when none is given, also where transforms are fitted on timeseries. Cross spectra
    pair each channel with the counterpart the input shapes prescribe, and unsupported shapes are refused.""",
    [IN, CF], "all shapes of one to three dimensions, segment lengths (odd and even), strides, windows, aggregations and both variants",
    "Tests compare with scipy for a few configurations; the identity must hold for all segmentations and layouts.",
    ["ml4gw/spectral.py", "ml4gw/transforms/spectral.py"],
    [("segmentation and aggregation", "spectral_density, fast_spectral_density, median"),
     ("parameter handling", "SpectralDensity")],
    observe=["return value"],
)
prop(
    "T05", "Whitening is one linear filter per channel and crops exactly the settle-in",
    """Whitening is linear in the data, ignores its constant offset, treats every batch element and
    channel separately with the PSD prescribed for it (whatever the rank of the PSD), and returns single-precision data
    shortened by exactly half the filter duration on each side, or not at all when cropping is off, the
    cropped result being the interior of the uncropped one. The filter is the inverse amplitude spectrum, without the bins outside
    the highpass/lowpass band, its impulse response tapered to the filter duration, applied with zero phase; a flat PSD thus yields
    the data, up to the one known scale. The fitted
    whitening transform gives the same result as whitening with the PSD it was fitted on, and wrong lengths are refused.""",
    [IN, CF], "all data, PSD layouts, filter durations, frequency cuts and crop settings",
    "Tests check variance statistics of random noise for a few settings; linearity, independence, cropping and band edges are for all inputs.",
    ["ml4gw/spectral.py", "ml4gw/transforms/whitening.py"],
    [("filter construction", "truncate_inverse_power_spectrum"),
     ("application and crop", "normalize_by_psd, whiten, FixedWhiten.forward")],
    observe=["return value"],
)
prop(
    "T06", "Decimation keeps exactly the scheduled samples",
    """For every schedule entry the decimator returns the samples at the entry's start time and every
    (input rate / target rate)-th sample thereafter, strictly before its end time; joined output is
    these segments in schedule order, split output one tensor per entry. This holds for schedules with
    any number of entries, one-sample entries and gaps included, and in split mode for entries that
    overlap, contain one another or come in any order. Malformed schedules (wrong shape, empty
    or reversed entries, rates that do not divide, overlap in joined mode) and data of the wrong length
    are refused.""",
    [IN, CF], "all schedules, integer or fractional times, both output modes, all data",
    "Tests cover a few contiguous schedules with many samples per segment.",
    ["ml4gw/transforms/decimator.py"],
    [("index construction", "Decimator.build_variable_indices"), ("split mode", "Decimator.split_by_schedule"),
     ("validation", "Decimator._validate_inputs")],
    observe=["return value", "constructor errors"],
)
prop(
    "T07", "Integrators: causal running mean, and a leaky sum that never leaves its floor",
    """The top-hat integrator's output at each time is the mean over its window of the most recent samples,
    earlier than the start counting as zero. The leaky integrator's output follows the recurrence: add one
    (or the score) when the input reaches the threshold, subtract the decay otherwise, and never fall
    below the lower bound, starting from zero. Both depend on no future sample and
    treat every series of a batch separately.""",
    [IN, CF], "all series, lengths, batch shapes, thresholds, decays, bounds and modes",
    "Tests compare a few random series with loops and only for a zero lower bound; the recurrence is over whole histories of inputs.",
    ["ml4gw/transforms/integrator.py"],
    [("padded convolution", "TophatIntegrator.forward"), ("cumulative sum with running minimum", "LeakyIntegrator.forward")],
    observe=["return value"],
)
prop(
    "T08", "Shifted Pearson correlation uses the right shift, order and overlap",
    """Entry k of the shifted correlation is the Pearson coefficient of the second series with the first
    one zero-padded and shifted by k - max_shift samples, for all 2 max_shift + 1 shifts in order, for every batch
    element and channel separately, whatever the scales of the two series (strain's included). A second series of lower rank is applied to every batch
    element or channel it is missing, series that do not match are refused, and the inputs are left alone.""",
    [IN, CF], "all data, ranks of both series, lengths and shift ranges",
    "Tests compare a few random cases with scipy; the shift/ordering identity is for all inputs.",
    ["ml4gw/transforms/pearson.py", "ml4gw/utils/slicing.py"],
    [("windowing and normalisation", "ShiftedPearsonCorrelation.forward"), ("shape rules", "_shape_checks")],
    observe=["return value"],
)
prop(
    "T09", "Heterodyning only rotates phases, one bank row per chirp mass",
    """For every requested chirp mass, in order, the frequency-domain output is the input's spectrum
    with the zero-frequency bin removed and every other bin rotated, never scaled, by the phase that
    depends on that mass and frequency only. The time-domain output has the input's length and is the
    inverse transform of the frequency-domain output, and asking for both returns exactly the
    two. Batch elements and channels do not influence each other, and the transform is linear.""",
    [IN, CF], "all inputs, lengths (odd included), sample rates, mass grids and return types",
    "Tests use even lengths and a few masses; phase-only action, pairing and length preservation quantify over all.",
    ["ml4gw/transforms/heterodyne.py"],
    [("phase bank", "Heterodyne._heterodyning_phase"), ("application", "Heterodyne.forward")],
    observe=["return value"],
)
prop(
    "T10", "Multi-resolution spectrogram is the per-bin maximum of its rescaled parts",
    """Every output bin of the multi-resolution spectrogram is the maximum, over the configured
    spectrograms, of the value that spectrogram has at the proportionally scaled time and frequency bin,
    padding never taking part. The output grid is as fine as the finest time and frequency grid among
    them; each batch element and channel is treated alone; inconsistent option lists, non-normalised spectrograms and
    inputs of any length other than the configured one (in whole samples, rounded down) are refused.""",
    [IN, CF], "all combinations of spectrogram options and inputs",
    "Tests compare a few random option lists; the index map must hold for every grid ratio.",
    ["ml4gw/transforms/spectrogram.py"],
    [("index maps and diagonal maximum", "MultiResolutionSpectrogram.__init__, forward"),
     ("option expansion", "_check_and_format_kwargs")],
    observe=["return value"],
)
prop(
    "T11", "Q-transforms describe the latest data, keep its axes, and scan to the loudest Q",
    """A Q-transform's tiles, energies and interpolated output always describe the data of the latest
    computation and nothing computed earlier, and before any computation they are refused. A computation
    that is refused leaves the tiles of the one before it usable and unchanged. Output for a
    batch has one row per batch element and channel, equal to what that series would give alone, and
    energies reported per batch, per channel or overall are the maxima over exactly the tiles in the
    requested frequency range. A scan over Q returns the output of the plane with the greatest energy.""",
    [IN, CF, HI], "all histories of computing, querying and interpolating on one transform; all batch and channel sizes including one; all frequency search ranges",
    "Tests run single computations on random data with batch and channel sizes above one.",
    ["ml4gw/transforms/qtransform.py"],
    [("tile computation and cache", "SingleQTransform.compute_qtiles"), ("energies", "get_max_energy"),
     ("output", "interpolate"), ("plane choice", "QScan.forward")],
    [("qtiles", "tiles of the latest computation", "SingleQTransform.qtiles")],
    ["return values and exceptions"],
)
prop(
    "T12", "Spline interpolation reproduces knots and polynomials, series by series",
    """Spline interpolation returns, at the output coordinates given at construction or at call time, values
    that reproduce the input at its own grid points and any polynomial up to the spline's degree
    everywhere on the grid, along one axis or two. Coordinates given for a call hold for that call only. Interpolation is linear in the data and each batch element and channel
    gets the result it would get alone; missing output coordinates and mismatched data are refused.""",
    [IN, CF, HI], "all grids (non-uniform included), degrees, data shapes, and sequences of calls with and without explicit output coordinates",
    "Tests compare with scipy on a few grids.",
    ["ml4gw/transforms/spline_interpolation.py"],
    [("B-spline basis and solve", "SplineInterpolateBase, SplineInterpolate1D, SplineInterpolate2D")],
    observe=["return value"],
)
prop(
    "T13", "IIR filtering is the designed filter run forward and backward per waveform",
    """Applying the IIR filter to a waveform equals running the designed difference equation over it
    forward and then backward in time, without clipping, for every waveform of a batch separately. The filter is
    linear and applying it leaves no memory that affects later calls.""",
    [IN, CF, HI], "all waveforms, batch shapes, amplitudes and filter designs",
    "Tests compare with scipy for a few designs and one signal.",
    ["ml4gw/transforms/iirfilter.py"],
    [("design", "IIRFilter.__init__"), ("filtfilt", "IIRFilter.forward")],
    observe=["return value"],
)
# ---------------------------------------------------------------- geometry
prop(
    "G01", "Antenna responses and detector geometry follow the tensor definition",
    """The response of an interferometer to a polarization is the contraction of its detector tensor with
    that polarization's tensor for the given sky angles, for every batch element, requested mode (in the
    requested order) and interferometer. It follows that rotating the polarization angle by a
    quarter turn flips the sign of plus and cross, by an eighth turn exchanges them, and leaves
    breathing alone; each detector's tensor is half the difference of its arms' outer products, in the order the
    detectors are named, and unknown modes or detectors are refused.""",
    [IN, CF], "all sky angles, polarization sets and orders, detector sets and orders",
    "Tests compare random samples with bilby; the identities hold for all angles and orders.",
    ["ml4gw/gw.py", "ml4gw/utils/interferometer.py"],
    [("polarization tensors", "plus, cross, breathing"), ("contraction", "compute_antenna_responses"),
     ("geometry", "get_ifo_geometry, InterferometerGeometry")],
    observe=["return value"],
)
prop(
    "G02", "Observed strain is the weighted sum of polarizations, delayed per detector",
    """The strain observed in each interferometer is the sum of the given polarizations weighted by that
    interferometer's responses, circularly shifted by the whole number of samples (truncated towards zero) that
    light needs between the geocentre and the detector along the source direction. Every batch
    element uses its own sky position and waveform, a detector at the origin is never delayed, and the waveform projector module gives the
    same result as the function it wraps.""",
    [IN, CF], "all sky positions, vertices, sample rates, waveforms and polarization sets",
    "Tests compare random samples with bilby; sign, truncation and wrap-around are for all delays.",
    ["ml4gw/gw.py", "ml4gw/transforms/waveforms.py"],
    [("projection", "compute_observed_strain"), ("delay and roll", "shift_responses"),
     ("module wrapper", "WaveformProjector")],
    observe=["return value"],
)
# ----------------------------------------------------------- augmentations
prop(
    "A01", "Augmentations flip each series as a whole, independently, with the given chance",
    """Inverting (reversing) augmentation returns each series either unchanged or entirely negated
    (entirely time-reversed), never mixed or moved between positions. Each series of a batch of any rank
    is decided independently, with the configured probability: never for probability zero, always for
    one.""",
    [IN, CF], "all batch shapes, data, probabilities and random draws",
    "Tests check probabilities 0, 0.5 and 1 on one shape.",
    ["ml4gw/augmentations.py"],
    [("per-series mask", "SignalInverter.forward, SignalReverser.forward")],
    observe=["return value"],
)
prop(
    "A02", "Waveform sampling keeps polarizations and parameters of a waveform together",
    """Each item drawn by the waveform sampler consists of all polarizations and the parameters of one and
    the same stored waveform; asking for all returns every stored waveform once and in order, asking
    for some returns exactly that many, any of which can be drawn. Requests for more than are stored and inputs whose counts disagree are
    refused, and drawing never changes what is stored.""",
    [IN, CF, HI], "all stored banks, request sizes and random draws",
    "Tests check one bank.",
    ["ml4gw/transforms/waveforms.py"],
    [("shared index", "WaveformSampler.forward"), ("count validation", "WaveformSampler.__init__")],
    observe=["return value"],
)
# --------------------------------------------------------------- waveforms
prop(
    "W01", "Distributions sample their support with the density they report",
    """Samples drawn from a parameter distribution have the requested shape and lie in its stated range, and
    their distribution is the one whose density the distribution reports; that density is zero outside the range and
    integrates to one over it. This holds for every choice of bounds, index, peak,
    distance measure, cosmology and rate function.""",
    [IN, CF], "all distributions, their parameters and sample shapes",
    "Tests check moments and limits for default parameters and never the normalisation.",
    ["ml4gw/distributions.py"],
    [("inverse-transform sampling and densities", "Cosine, Sine, LogUniform, PowerLaw, UniformComovingVolume, RateEvolution, DeltaFunction")],
    observe=["samples", "log_prob"],
)
prop(
    "W02", "Time-domain generator places the merger and length as configured for every row",
    """Generated time-domain waveforms have exactly duration times sample rate samples for every
    requested row, are finite, with the coalescence placed the configured time before the right edge and nothing but
    the (decaying) remainder after it. Rows come out in the order of their parameters, both
    polarizations scale inversely with distance, and repeated or reordered requests give the
    same waveforms.""",
    [IN, CF, HI], "all batches of source parameters and generator settings",
    "Tests compare a few parameter sets with lalsimulation; ordering, length and placement are for all batches.",
    ["ml4gw/waveforms/generator.py", "ml4gw/waveforms/cbc/utils.py"],
    [("conditioning, inverse transform and slicing", "TimeDomainCBCWaveformGenerator")],
    observe=["return value"],
)
prop(
    "W03", "Frequency-domain approximants act per source and per frequency",
    """For every approximant each row of the output depends only on that row's parameters, and each
    frequency bin only on that frequency, not on the rest of the batch or grid or on earlier calls. Amplitude
    is inversely proportional to distance; a change of phase of coalescence (for precessing sources together
    with the turn of the spins about the orbital momentum that it stands for) or inclination changes the
    polarizations by the prescribed factors; face-on sources are circularly polarized and edge-on
    aligned-spin sources have no cross polarization. Scaling all masses and times together scales the
    waveform, swapping equal masses with their spins changes nothing, and the waveform varies continuously
    with its parameters and with frequency, including settings at which something degenerates (equal masses,
    aligned or vanishing spins, joins of frequency regions). At low frequency the amplitude is the leading
    order one, and the precessing model agrees with the aligned one for aligned spins.""",
    [IN, CF], "all parameter batches, frequency grids, batch sizes",
    "Tests compare samples with lalsimulation on one grid and batch; independence and scaling are for all batches and grids.",
    ["ml4gw/waveforms/cbc/phenom_d.py", "ml4gw/waveforms/cbc/phenom_p.py", "ml4gw/waveforms/cbc/taylorf2.py"],
    [("batched evaluation", "IMRPhenomD, IMRPhenomPv2, TaylorF2 forward")],
    observe=["return value"],
)
prop(
    "W04", "Ad-hoc waveforms follow their parameters row by row on a fixed time grid",
    """Sine-Gaussian and ringdown waveforms have duration times sample rate samples per row and each row
    depends only on its own parameters. Sine-Gaussians scale linearly with hrss and are centred on the
    window: symmetric or antisymmetric about its middle according to phase, vanishing cross polarization at
    eccentricity one, and flip sign with half a turn of phase;
    ringdowns start at the left edge, decay by the prescribed factor per cycle, scale inversely with
    distance and linearly with the radiated fraction, and obey the prescribed inclination factors.""",
    [IN, CF], "all parameter batches, durations and sample rates",
    "Tests compare a few samples with lalinference.",
    ["ml4gw/waveforms/adhoc/sine_gaussian.py", "ml4gw/waveforms/adhoc/ringdown.py"],
    [("time grid and closed form", "SineGaussian, Ringdown")],
    observe=["return value"],
)
prop(
    "W05", "Mass and spin conversions are consistent and rotation-preserving",
    """Converting component masses to chirp mass and mass ratio and back returns the original
    masses with the heavier first. Converting precessing-spin angles to cartesian spins preserves each
    spin's magnitude and its angle to the orbital angular momentum and the angle between the in-plane spins,
    reduces to aligned spins with the inclination equal to the viewing angle when tilts vanish, and treats each row of a batch separately.""",
    [IN, CF], "all masses and spin angles, batch sizes",
    "Tests compare samples with lalsimulation/bilby.",
    ["ml4gw/waveforms/conversion.py"],
    [("closed-form conversions", "chirp_mass_and_mass_ratio_to_components, bilby_spins_to_lalsim")],
    observe=["return value"],
)
# ---------------------------------------------------------------------- nn
prop(
    "M01", "Autoencoders decode in mirror order with each skip state at its own level",
    """An autoencoder applies its blocks' encoders in order and their decoders in the reverse order, and with a
    skip connection combines the output of each decoder (except the outermost) with the encoding made by
    the block before it, at the same depth. Encoding and decoding work with or without intermediate states,
    alone or through the full pass, and the convolutional autoencoder returns data of the input's length
    with the configured number of channels for every depth, stride, kernel, grouping, activation and skip
    connection, keeping grouped channels apart. Sizes are matched by padding or cropping both ends. Missing or wrongly many states are refused.""",
    [IN, CF, HI], "all stacks of blocks, skip connections, and all input lengths; encode and decode called separately or together",
    "There are no tests for autoencoders at all.",
    ["ml4gw/nn/autoencoder/base.py", "ml4gw/nn/autoencoder/convolutional.py", "ml4gw/nn/autoencoder/skip_connection.py", "ml4gw/nn/autoencoder/utils.py"],
    [("encode/decode order and state pairing", "Autoencoder.encode, decode, forward"),
     ("block construction", "ConvolutionalAutoencoder.__init__, ConvBlock"), ("size matching", "match_size")],
    [("states", "intermediate encodings", "returned by Autoencoder.encode")],
    ["return value and errors"],
)
prop(
    "M02", "Residual networks map any batch to one row per element, independently",
    """A one- or two-dimensional residual network returns one vector of the configured size per batch
    element for every depth, kernel size, width and combination of striding or dilation it accepts, and in evaluation mode
    each row depends only on its own element. Zero-initialised residual branches make every block start as (the
    activation of) its shortcut, dilated stages keep the length that strided stages reduce, and unsupported
    combinations are refused.""",
    [IN, CF], "all architectures (layers, kernel sizes, groups, stride types, norms) and inputs",
    "Tests check output shapes of a few configurations.",
    ["ml4gw/nn/resnet/resnet_1d.py", "ml4gw/nn/resnet/resnet_2d.py"],
    [("stage construction and padding", "ResNet1D/ResNet2D._make_layer, BasicBlock, Bottleneck, convN")],
    observe=["return value and errors"],
)
prop(
    "M03", "Group normalisation matches its definition for every grouping",
    """Group normalisation gives every group of consecutive channels of every batch element zero mean and
    unit variance over that group and all times (up to the stabilising epsilon), then applies each channel's own scale and shift;
    groups and batch elements never mix, and channel counts the groups do not divide are refused.""",
    [IN, CF], "all channel counts, group counts, lengths and data",
    "Tests compare a few group counts with torch with random data at initial weights.",
    ["ml4gw/nn/norm.py"],
    [("grouped moments", "GroupNorm1D.forward"), ("getters", "GroupNorm1DGetter, GroupNorm2DGetter")],
    observe=["return value"],
)
prop(
    "M04", "State-space layers are causal, length-consistent and equal to their recurrence",
    """The state-space convolution kernel of a shorter length is a prefix of the longer one and equals
    the impulse response of the layer's diagonal recurrence; a layer's output at each time depends on no later
    input and on no other batch element, equals stepping the recurrence, and is the same in either
    axis layout. The full model returns one vector per batch element for every configuration, with dropout off
    repeatably, and invalid dropout values are refused.""",
    [IN, CF], "all model sizes, state sizes, lengths, layouts and inputs",
    "Tests check shapes and a few kernel values.",
    ["ml4gw/nn/ssm/s4d.py"],
    [("kernel", "S4DKernel.forward"), ("padded FFT convolution", "S4D.forward"), ("stack", "S4Model.forward")],
    observe=["return value"],
)
