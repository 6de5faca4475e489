BUGS = [
dict(id="c01_contributions_before_0", property="C01",
     edits=[("simulator.py", """                self.sig[f"{src.name}~{mic.name}"][:,end_sample - num_samples:end_sample] = propagated_signal
        self.sig.idx = self.sim_info.sim_buffer
""", """                self.sig[f"{src.name}~{mic.name}"][:,:end_sample] = propagated_signal[:,-num_samples:]
        self.sig.idx = self.sim_info.sim_buffer
""")],
     needs="save_source_contributions together with start_sources_before_0 False: the single sample before time 0 is spread over the whole buffer of the contribution",
     breaks="the recorded contributions are not the terms of the sum for the samples before time 0",
     demo="""
for start in (True, False):
    s = new_setup(save_source_contributions=True, start_sources_before_0=start)
    s.add_free_source("src", np.zeros((1, 3)), Noise(1))
    s.add_mics("mic", np.ones((2, 3)))
    s.set_path("src", "mic", np.random.default_rng(2).normal(size=(1, 2, 4)))
    sim = create(s)
    seen = []
    sim.add_processor(Proc(sim, 1, lambda p, n: seen.append((p.sig["mic"].copy(), p.sig["src~mic"].copy()))))
    run(sim)
    for m, c in seen:
        assert np.allclose(m, c), "the only contribution is not the microphone signal"
"""),
dict(id="c01_shared_filter", property="C01",
     edits=[("simulator.py", """            self.path_filters[src.name][mic.name] = fc.create_filter(ir=path, sum_over_input=True, dynamic=(src.dynamic or mic.dynamic))
""", """            key = (path.shape, path.tobytes(), src.dynamic or mic.dynamic)
            if key not in filters:
                filters[key] = fc.create_filter(ir=path, sum_over_input=True, dynamic=(src.dynamic or mic.dynamic))
            self.path_filters[src.name][mic.name] = filters[key]
"""), ("simulator.py", """        self.path_filters = {}
        for src""", """        self.path_filters = {}
        filters = {} # equal paths need only one filter
        for src""")],
     needs="two pairs of arrays with identical paths of more than one sample: the filters (with their state) are shared",
     breaks="the microphone signals mix the past samples of different sources",
     demo="""
s = new_setup()
h = np.array([[[1.0, 0.5, 0.25]]])
s.add_free_source("a", np.zeros((1, 3)), Noise(1, 1))
s.add_free_source("b", np.ones((1, 3)), Noise(1, 2))
s.add_mics("mic", np.ones((1, 3)))
s.set_path("a", "mic", h.copy())
s.set_path("b", "mic", h.copy())
sim = create(s)
sim.diag.add_diagnostic("m", dg.RecordSignal("mic", sim.sim_info, num_channels=1))
run(sim)
x = Noise(1, 1).data[0] + Noise(1, 2).data[0]
want = np.convolve(x, h[0, 0])[:60]
assert np.allclose(sim.diag["m"].signal[0], want)
"""),
dict(id="c02_written_ahead", property="C02",
     edits=[("simulator.py", """            self.signals[name] = np.concatenate(
                (
                    sig[..., -self.sim_info.sim_buffer :],
                    np.zeros(sig.shape[:-1] + (self.sim_info.sim_chunk_size,)),
                ),
                axis=-1,
            )
""", """            new_sig = np.zeros(sig.shape)
            num_keep = min(self.idx + 1 - self.sim_info.sim_chunk_size, self.sim_info.sim_buffer)
            new_sig[..., :num_keep] = sig[..., self.sim_info.sim_chunk_size : self.sim_info.sim_chunk_size + num_keep]
            self.signals[name] = new_sig
""")],
     needs="a processor with a block size above 1 whose blocks are not aligned with the chunks: what it wrote ahead of the current sample is lost at the chunk boundary",
     breaks="samples written ahead of the current one are dropped when moving to the next chunk",
     demo="""
def go(chunk):
    s = new_setup(sim_chunk_size=chunk, sim_buffer=10)
    s.add_controllable_source("ls", np.zeros((1, 3)))
    s.add_mics("mic", np.ones((1, 3)))
    s.set_path("ls", "mic", np.array([[[1.0, 0.5]]]))
    sim = create(s)
    k = [0]
    def func(p, n):
        k[0] += 1
        p.sig["ls"][:, p.sig.idx:p.sig.idx + n] = k[0] * 10 + np.arange(n)
    sim.add_processor(Proc(sim, 5, func))
    sim.diag.add_diagnostic("m", dg.RecordSignal("mic", sim.sim_info, num_channels=1))
    run(sim)
    return sim.diag["m"].signal
want = go(1000)
for chunk in (5, 7, 11, 12, 13, 20):
    assert np.allclose(go(chunk), want), chunk
"""),
dict(id="c02_reset_per_signal", property="C02",
     edits=[("simulator.py", """        for name, sig in self.signals.items():
            self.signals[name] = np.concatenate(""", """        for name, sig in [(n, x) for n, x in self.signals.items() if x.ndim == 2]:
            self.signals[name] = np.concatenate(""")],
     needs="a signal with more than one channel dimension, created by the processor, and more than one chunk",
     breaks="the history of a signal is dropped at the chunk boundary",
     demo="""
def go(chunk):
    s = new_setup(sim_chunk_size=chunk, sim_buffer=20)
    s.add_free_source("src", np.zeros((1, 3)), Noise(1))
    s.add_mics("mic", np.ones((1, 3)))
    sim = create(s)
    got = []
    def func(p, n):
        i = p.sig.idx
        got.append(p.sig["mat"][..., i - 6:i - n].copy())
        p.sig["mat"][..., i - n:i] = p.sig["src"][:, None, i - n:i] * np.ones((1, 2, 1))
    proc = Proc(sim, 3, func)
    proc.sig.create_signal("mat", (1, 2))
    sim.add_processor(proc)
    run(sim)
    return np.array(got)
want = go(1000)
for chunk in (7, 12, 20):
    assert np.allclose(go(chunk), want), chunk
"""),
dict(id="c03_last_block_shortened", property="C03",
     edits=[("simulator.py", """                    proc.process(proc.block_size)
""", """                    proc.process(min(proc.block_size, self.sim_info.tot_samples + max_block_size - self.n_tot))
""")],
     needs="a total number of samples for which the last block starts less than a block before the end of the simulation",
     breaks="the last call of the processor is for fewer samples than its block size",
     demo="""
for tot in range(40, 52):
    s = new_setup(tot_samples=tot)
    s.add_mics("mic", np.ones((1, 3)))
    s.add_free_source("src", np.zeros((1, 3)), Noise(1))
    sim = create(s)
    proc = Proc(sim, 5)
    sim.add_processor(proc)
    run(sim)
    assert set(proc.calls) == {5}, proc.calls
"""),
dict(id="c03_processor_signals_shape", property="C03",
     edits=[("simulator.py", "                self.sig.create_signal(sig_name, self.processors[0].sig[sig_name].shape[:-1])\n",
             "                self.sig.create_signal(sig_name, self.processors[0].sig[sig_name].shape[0])\n")],
     needs="a processor that creates a signal with more than one channel dimension in its constructor",
     breaks="the processor does not find the signal it made, so it cannot process its blocks",
     demo="""
s = new_setup()
s.add_mics("mic", np.ones((1, 3)))
s.add_free_source("src", np.zeros((1, 3)), Noise(1))
sim = create(s)
shapes = set()
proc = Proc(sim, 2, lambda p, n: shapes.add(p.sig["mat"].shape[:-1]))
proc.sig.create_signal("mat", (3, 4))
sim.add_processor(proc)
run(sim)
assert shapes == {(3, 4)}, shapes
"""),
dict(id="c03_block_after_update", property="C03",
     edits=[("simulator.py", "                if self.n_tot % proc.block_size == proc.block_size-1:", "                if self.sig.idx % proc.block_size == (self.sim_info.sim_buffer + proc.block_size-1) % proc.block_size:")],
     needs="more than one chunk, with a chunk size that is not a multiple of the block size: the local index is used for deciding when a block is due",
     breaks="blocks are too short or too long after the change to the next chunk",
     demo="""
s = new_setup(sim_chunk_size=25, tot_samples=120)
s.add_mics("mic", np.ones((1, 3)))
s.add_free_source("src", np.zeros((1, 3)), Noise(1))
sim = create(s)
at = []
sim.add_processor(Proc(sim, 4, lambda p, n: at.append(sim.n_tot)))
run(sim)
assert at == list(range(3, 124, 4)), at
"""),
dict(id="c04_channel_order", property="C04",
     edits=[("diagnostics/diagnostics.py", """                sig[self.sig_name][self.channel_idx,chunkInterval[0]:chunkInterval[1]]
        else:""", """                sig[self.sig_name][np.isin(np.arange(sig[self.sig_name].shape[0]), self.channel_idx),chunkInterval[0]:chunkInterval[1]]
        else:""")],
     needs="channel_idx that is not in increasing order",
     breaks="the recorded channels are interchanged",
     demo="""
s = new_setup()
s.add_mics("mic", np.ones((1, 3)))
s.add_free_source("src", np.zeros((3, 3)), Noise(3))
sim = create(s)
for i, idx in enumerate([(0,), (0, 2), (2, 0), (1, 0)]):
    sim.diag.add_diagnostic(f"d{i}", dg.RecordSignal("src", sim.sim_info, num_channels=len(idx), channel_idx=idx))
sim.diag.add_diagnostic("all", dg.RecordSignal("src", sim.sim_info, num_channels=3))
run(sim)
for i, idx in enumerate([(0,), (0, 2), (2, 0), (1, 0)]):
    assert np.allclose(sim.diag[f"d{i}"].signal, sim.diag["all"].signal[list(idx)]), idx
"""),
dict(id="c04_interval_over_boundary", property="C04",
     edits=[("diagnostics/core.py", """                start_lcl = idx - (global_idx-start) - 1
                diag.save(processors, sig, (start_lcl, end_lcl), (start, global_idx))
                diag.progress_save(global_idx)
""", """                start_lcl = max(idx - (global_idx-start) - 1, self.sim_info.sim_buffer - 1)
                diag.save(processors, sig, (start_lcl, end_lcl), (global_idx - (end_lcl - start_lcl), global_idx))
                diag.progress_save(global_idx)
""")],
     needs="a save interval that spans a complete chunk, with a processor (so that the samples of the last block of a chunk are saved after the chunk was changed)",
     breaks="the samples at the end of a chunk are missing in the recording",
     demo="""
s = new_setup(sim_chunk_size=20, sim_buffer=15, tot_samples=120)
s.add_mics("mic", np.ones((1, 3)))
s.add_free_source("src", np.zeros((1, 3)), Noise(1))
sim = create(s)
sim.add_processor(Proc(sim, 4))
sim.diag.add_diagnostic("d", dg.RecordSignal("src", sim.sim_info, num_channels=1))
run(sim)
assert np.allclose(sim.diag["d"].signal[0], Noise(1).data[0, :120])
"""),
dict(id="c05_all_or_none", property="C05",
     edits=[("diagnostics/core.py", """            if dg.next_export() <= dg.save_at.saved_until: # all relevant data have been saved
""", """            if dg.next_export() == self.upcoming_export and dg.next_export() <= dg.save_at.saved_until: # all relevant data have been saved
""")],
     needs="several diagnostics of which one cannot be exported yet (its data is saved less often) at the earliest export index",
     breaks="the export of one diagnostic is delayed or skipped because of another one",
     demo="""
s = new_setup(plot_output="pdf", tot_samples=90, sim_chunk_size=200)
s.add_mics("mic", np.ones((1, 3)))
s.add_free_source("src", np.zeros((1, 3)), Noise(1))
sim = create(s)
sim.add_processor(Proc(sim, 4))
log = []
def note(name, diags, idx, folder, preproc, print_method=None):
    log.append((name, idx, sim.n_tot))
for d, at, iv in (("a", [20, 60], [(0, 40), (50, 90)]), ("b", [30, 40], [(0, 30), (35, 90)])):
    x = dg.RecordSignal("src", sim.sim_info, at, dc.IntervalCounter(iv), num_channels=1)
    x.export_function = [note]
    x.export_kwargs = [{}]
    sim.diag.add_diagnostic(d, x)
run(sim)
alone = [l for l in log if l[0] == "b"]
log.clear()
sim2 = create(s)
sim2.add_processor(Proc(sim2, 4))
sim = sim2
x = dg.RecordSignal("src", sim.sim_info, [30, 40], dc.IntervalCounter([(0, 30), (35, 90)]), num_channels=1)
x.export_function = [note]
x.export_kwargs = [{}]
sim.diag.add_diagnostic("b", x)
run(sim)
assert [l for l in log if l[0] == "b"] == alone, (alone, log)
"""),
dict(id="c05_one_per_dispatch", property="C05",
     edits=[("diagnostics/core.py", """            while self.export_this_idx():
                for diag_name in self.export_this_idx():
                    self.export_single_diag(diag_name, fldr)
""", """            for diag_name in self.export_this_idx():
                self.export_single_diag(diag_name, fldr)
"""), ("simulator.py", """            self.diag.dispatch(self.folder_path)

            # Write progress""", """            if self.sig.idx == self.sim_info.sim_buffer or self.diag.export_this_idx():
                self.diag.dispatch(self.folder_path)

            # Write progress""")],
     needs="several export indices of one diagnostic that become due at the same sample, near the end of the simulation",
     breaks="export indices at the end of the simulation are not exported",
     demo="""
s = new_setup(plot_output="pdf", tot_samples=90, sim_chunk_size=2000)
s.add_mics("mic", np.ones((1, 3)))
s.add_free_source("src", np.zeros((1, 3)), Noise(1))
sim = create(s)
sim.add_processor(Proc(sim, 1))
log = []
x = dg.RecordSignal("src", sim.sim_info, [82, 84, 86, 88, 90], num_channels=1)
x.export_function = [lambda name, diags, idx, folder, preproc, print_method=None: log.append(idx)]
x.export_kwargs = [{}]
sim.diag.add_diagnostic("a", x)
run(sim)
assert log == [82, 84, 86, 88, 90], log
"""),
dict(id="c06_noise_order", property="C06",
     edits=[("signal/sources.py", """        return self.rng.normal(
            loc=0, scale=self.stdDev, size=(num_samples, self.num_channels)
        ).T
""", """        scale = np.broadcast_to(self.stdDev, (self.num_channels,))[:,None]
        return self.rng.normal(loc=0, scale=scale, size=(self.num_channels, num_samples))
""")],
     needs="a white noise source with more than one channel",
     breaks="the random numbers are distributed over the channels depending on the block size",
     demo="""
for ch in (1, 2, 3):
    a = so.WhiteNoiseSource(ch, 2.0, np.random.default_rng(3))
    b = so.WhiteNoiseSource(ch, 2.0, np.random.default_rng(3))
    assert np.allclose(a.get_samples(12), np.concatenate([b.get_samples(5), b.get_samples(7)], axis=-1)), ch
"""),
dict(id="c06_phase_wrap", property="C06",
     edits=[("signal/sources.py", "        self.phase = (self.phase + num_samples * self.phase_per_sample) % (2 * np.pi)\n",
             "        self.phase = (self.phase + num_samples * (self.phase_per_sample % np.pi)) % (2 * np.pi)\n")],
     needs="a sine with a frequency above half the sample rate (or an odd block size at exactly half)",
     breaks="the phase at the start of the next block is wrong for odd block sizes",
     demo="""
for f in (30.0, 499.0, 600.0, 1300.0):
    a = so.SineSource(1, 1.0, f, 1000, np.random.default_rng(3))
    b = so.SineSource(1, 1.0, f, 1000, np.random.default_rng(3))
    assert np.allclose(a.get_samples(12), np.concatenate([b.get_samples(5), b.get_samples(7)], axis=-1)), f
"""),
dict(id="c06_gold_wrap", property="C06",
     edits=[("signal/sources.py", """            self.idx = (self.idx + blockLen) % self.seqLength
""", """            self.idx += blockLen
        if self.idx >= self.seqLength:
            self.idx -= self.seqLength
"""), ("signal/sources.py", """            outSignal[:, outIdx : outIdx + blockLen] = self.sequences[
                :, self.idx : self.idx + blockLen
            ]
""", """            start = self.idx % self.seqLength
            outSignal[:, outIdx : outIdx + blockLen] = self.sequences[:, start : start + blockLen]
""")],
     needs="a single request for two or more periods of the gold sequence",
     breaks="the state after a long request is not that after several short ones (the next request gives blocks that do not fit)",
     demo="""
for parts in ([10, 90], [62, 31, 5], [95, 40], [200, 1, 70]):
    a = so.GoldSequenceSource(2, 1.0, 5)
    b = so.GoldSequenceSource(2, 1.0, 5)
    assert np.allclose(a.get_samples(sum(parts)), np.concatenate([b.get_samples(n) for n in parts], axis=-1)), parts
"""),
dict(id="c07_pulse_delay", property="C07",
     edits=[("signal/sources.py", "        self.idx -= self.delay\n", "        self.idx += np.mod(-self.delay, np.max(self.period_len))\n")],
     needs="a pulse train with different periods per channel and a delay",
     breaks="the pulses of the channels with shorter periods are shifted",
     demo="""
for period, delay in ((4, 1), ([4, 7], [1, 2]), ([3, 5], 1), (6, 9)):
    s = so.PulseTrain(2, 2.0, period, delay).get_samples(40)
    p, d = np.broadcast_to(period, 2), np.broadcast_to(delay, 2)
    for c in range(2):
        assert np.array_equal(s[c], np.where((np.arange(40) - d[c]) % p[c] == 0, 2.0, 0.0)), (period, delay)
"""),
dict(id="c07_multisine_power", property="C07",
     edits=[("signal/sources.py", "        self.numSines = len(freq)\n", "        self.numSines = len(np.unique(freq))\n"),
            ("signal/sources.py", "        self.phase = self.rng.uniform(low=0, high=2 * np.pi, size=self.numSines)\n", "        self.phase = self.rng.uniform(low=0, high=2 * np.pi, size=len(freq))\n")],
     needs="a multi-sine source with a frequency that occurs twice",
     breaks="one of the sinusoids is missing and the amplitude is that of fewer sinusoids",
     demo="""
for f in ([50.0, 80.0], [50.0, 50.0], [100.0, 30.0, 100.0]):
    s = so.MultiSineSource(1, 3.0, np.array(f), 1000, np.random.default_rng(5))
    ph = np.random.default_rng(5).uniform(low=0, high=2 * np.pi, size=len(f))
    want = sum(np.sqrt(2 * 3.0 / len(f)) * np.cos(p + 2 * np.pi * x * np.arange(50) / 1000) for x, p in zip(f, ph))
    assert np.allclose(s.get_samples(50)[0], want), f
"""),
dict(id="c07_raise_boundary", property="C07",
     edits=[("signal/sources.py", """                self.current_sample = (self.current_sample + block_len) % self.tot_samples
                i += block_len
""", """                self.current_sample += block_len
                i += block_len
                if self.current_sample > self.tot_samples - 1:
                    self.current_sample = i % self.tot_samples
""")],
     needs="a repeating sequence whose request wraps around after an earlier request of a length that is not a multiple of the sequence",
     breaks="after the wrap the sequence does not continue at its start",
     demo="""
x = np.random.default_rng(4).normal(size=(2, 7))
s = so.Sequence(x)
got = np.concatenate([s.get_samples(n) for n in (3, 6, 1, 10, 4)], axis=-1)
assert np.allclose(got, np.tile(x, 5)[:, :24])
"""),
dict(id="c08_buffer_refill", property="C08",
     edits=[("processor.py", """        if leftInBuffer == 0:
            leftInBuffer = chunk_size
""", """        if leftInBuffer == 0:
            leftInBuffer = chunk_size + buffer_size
""")],
     needs="a request that needs more than one refill of the buffer",
     breaks="blocks run beyond the end of the signal buffer after the first refill",
     demo="""
for n, idx, buf, chunk in ((5, 3, 4, 10), (40, 3, 4, 10), (25, 13, 4, 10), (31, 13, 6, 8)):
    b = pr.calc_block_sizes_with_buffer(n, idx, buf, chunk)
    assert sum(b) == n
    pos = idx
    for x in b:
        assert x > 0 and pos + x <= buf + chunk, (b, pos)
        pos += x
        if pos == buf + chunk:
            pos = buf
"""),
dict(id="c08_exact_multiple", property="C08",
     edits=[("utilities.py", """        if left_in_block == 0:
            left_in_block = block_size
""", """        if left_in_block == 0:
            left_in_block = max(block_size - (start_idx == block_size - 2), 1)
""")],
     needs="a start two samples before the end of a block, and at least one more whole block",
     breaks="a boundary between two blocks is not on a multiple of the block size",
     demo="""
for B in range(1, 12):
    for s in range(B):
        for n in range(1, 30):
            b = ut.calc_block_sizes(n, s, B)
            assert sum(b) == n and all(0 < x <= B for x in b)
            assert all((s + e) % B == 0 for e in np.cumsum(b)[:-1]), (n, s, B, b)
"""),
dict(id="c09_planar_closure", property="C09",
     edits=[("room/trajectory.py", "        if not np.allclose(points[-1,:], points[0,:]):\n            points = np.concatenate((points, points[:1,:]), axis=0)\n        self.anchor_points = points\n        self.period",
             "        if not np.allclose(points[-1,:2], points[0,:2]):\n            points = np.concatenate((points, points[:1,:]), axis=0)\n        self.anchor_points = points\n        self.period")],
     needs="a trajectory whose last point is right above or below the first one",
     breaks="the trajectory does not return to its start",
     demo="""
for last in ([1.0, 1.0, 0.0], [0.0, 0.0, 1.0]):
    t = tr.LinearTrajectory(np.array([[0.0, 0, 0], [1.0, 0, 0], last]), 1.0, 100)
    assert np.allclose(t.current_pos(100), t.current_pos(0))
    assert np.linalg.norm(t.current_pos(99) - t.current_pos(100)) < 0.2, last
"""),
dict(id="c09_integer_period", property="C09",
     edits=[("room/trajectory.py", """            angle_period_samples = t % (angle_period * samplerate)
""", """            angle_period_samples = t % int(angle_period * samplerate)
""")],
     needs="an angle period that is not a whole number of samples, and a time index after the first lap",
     breaks="the angle drifts from the one given by the period",
     demo="""
for T in (0.5, 0.4273):
    c = tr.CircularTrajectory((1.0, 1.0), (0.0, 0.0, 0.0), 1.0, T, 100)
    for n in range(0, 400, 7):
        a = 2 * np.pi * n / (100 * T)
        assert np.allclose(c.current_pos(n), [[np.cos(a), np.sin(a), 0]], atol=1e-6), (T, n)
"""),
]
