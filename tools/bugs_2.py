BUGS = [
dict(id="c10_cylinder_height", property="C10",
     edits=[("room/region.py", """        is_in_height = np.logical_and(-self.height/2 <= centered_coords[:,2],
                                      self.height/2 >= centered_coords[:,2])
""", """        is_in_height = np.logical_and(-self.height/2 <= centered_coords[:,2] - np.mean(centered_coords[:,2]) * (len(centered_coords) > 100),
                                      self.height/2 >= centered_coords[:,2])
""")],
     needs="a membership test of more than 100 points at once",
     breaks="membership is not evaluated point by point",
     demo="""
c = rg.Cylinder(1.0, 2.0, (0.5, 0, 0.3))
g = np.random.default_rng(1)
for n in (5, 99, 101, 400):
    x = g.uniform(-2, 3, size=(n, 3))
    want = (np.hypot(x[:, 0] - 0.5, x[:, 1]) <= 1) & (abs(x[:, 2] - 0.3) <= 1)
    assert np.array_equal(c.is_in_region(x), want), n
"""),
dict(id="c10_cuboid_center", property="C10",
     edits=[("room/region.py", """        single_axes = [
            single_ax + remainder / 2
            for single_ax, remainder in zip(single_axes, remainders)
        ]
        all_points = np.meshgrid(*single_axes)
        all_points = np.concatenate(
            [points.flatten()[:, None] for points in all_points], axis=-1
        )
""", """        single_axes = [
            single_ax + min(remainder, p_dist) / 2
            for single_ax, remainder, p_dist in zip(single_axes, remainders, point_dist)
        ]
        all_points = np.meshgrid(*single_axes)
        all_points = np.concatenate(
            [points.flatten()[:, None] for points in all_points], axis=-1
        )
""")],
     needs="a cuboid with a side length that is not a multiple of the point spacing",
     breaks="the grid is not symmetric about the center",
     demo="""
for sides, d in (((2, 2, 2), (1, 1, 1)), ((2.5, 1.0, 3.2), (1, 0.5, 0.7))):
    c = rg.Cuboid(sides, (1.0, 2.0, 3.0), d)
    p = c.equally_spaced_points()
    assert np.allclose(p.max(axis=0) + p.min(axis=0), [2, 4, 6]), sides
    assert np.all(c.is_in_region(p))
"""),
dict(id="c10_ball_accept", property="C10",
     edits=[("room/region.py", "            filtered_samples = uniform_samples[np.linalg.norm(uniform_samples, axis=-1) <= self.radius,:]\n",
             "            filtered_samples = uniform_samples[np.sum(uniform_samples**2, axis=-1) <= self.radius,:]\n")],
     needs="a ball with radius below 1 (above 1, only the density is wrong)",
     breaks="sampled points lie outside of the ball",
     demo="""
for r in (1.0, 0.4, 2.0):
    b = rg.Ball(r, (1.0, 0.0, 0.0), rng=np.random.default_rng(3))
    p = b.sample_points(500)
    assert p.shape == (500, 3)
    d = np.linalg.norm(p - [1.0, 0, 0], axis=-1)
    assert np.all(d <= r + 1e-9), r
    assert d.max() > 0.9 * r, r
"""),
dict(id="c11_same_region_twice", property="C11",
     edits=[("room/region.py", """        sampled_points = np.concatenate([self.regions[idx].sample_points(num) 
                        for idx, num in zip(unique, counts)])
""", """        sampled_points = np.concatenate([self.regions[part].sample_points(num) 
                        for part, num in enumerate(counts)])
""")],
     needs="a part from which no point is drawn (few points, or a very small part) before a part from which points are drawn",
     breaks="the points are taken from another part than the drawn one",
     demo="""
big, small = rg.Cuboid((3, 3, 3), (10, 0, 0)), rg.Cuboid((0.03, 0.03, 0.03), (0, 0, 0), (0.01, 0.01, 0.01))
for seed in range(20):
    c = rg.CombinedRegion([small, big], np.random.default_rng(seed))
    p = c.sample_points(20)
    assert np.sum(big.is_in_region(p)) >= 19
"""),
dict(id="c11_volume_of_center", property="C11",
     edits=[("room/region.py", "        self.volume = np.sum(self.volumes)\n", "        self.volume = np.sum(np.unique(self.volumes))\n")],
     needs="two parts with equal volumes",
     breaks="the last parts are chosen with the wrong probability",
     demo="""
parts = [rg.Cuboid((1, 1, 1), (3.0 * i, 0, 0)) for i in range(4)]
c = rg.CombinedRegion(parts, np.random.default_rng(0))
p = c.sample_points(4000)
n = [np.sum(r.is_in_region(p)) for r in parts]
assert min(n) > 800, n
"""),
dict(id="c12_slow_movement", property="C12",
     edits=[("array.py", """            self.pos = self.trajectory.current_pos(glob_idx)
            self.time_all.append(glob_idx)
            self.pos_all.append(self.pos)
            return True
""", """            old_pos = self.pos
            self.pos = self.trajectory.current_pos(glob_idx)
            self.time_all.append(glob_idx)
            self.pos_all.append(self.pos)
            return not np.allclose(old_pos, self.pos)
""")],
     needs="a movement that is slow in relation to the update interval, so that each step is within the tolerance of allclose",
     breaks="the impulse responses do not follow the position any more",
     demo="""
s = new_setup(reverb="ism", extra_delay=10, max_room_ir_length=40, tot_samples=4, sim_buffer=4, sim_chunk_size=10)
def pos(n):
    return np.array([[1.0 + 4e-6 * n, 0.3, 0.2]])
s.add_free_source("src", np.array([[0.5, 0.1, 0.1]]), Noise(1))
s.add_mics("mic", tr.Trajectory(pos))
sim = create(s)
with quiet():
    for n in range(400):
        sim.arrays.update(n)
    fixed = new_setup(reverb="ism", extra_delay=10, max_room_ir_length=40)
    fixed.add_free_source("src", np.array([[0.5, 0.1, 0.1]]), Noise(1))
    fixed.add_mics("mic", pos(399))
    want = create(fixed).arrays.paths["src"]["mic"]
    first = create(s).arrays.paths["src"]["mic"]
assert np.max(np.abs(first - want)) > 1e-5
assert np.allclose(sim.arrays.paths["src"]["mic"], want, atol=1e-8, rtol=0)
"""),
dict(id="c12_update_order", property="C12",
     edits=[("array.py", """        changed_arrays = []

        for ar_name, ar in self.arrays.items():
            changed = ar.update(glob_idx)
            if changed:
                changed_arrays.append(ar_name)

        already_updated = []
        
        for ar_name in changed_arrays:
""", """        already_updated = []
        
        for ar_name, ar in self.arrays.items():
            if not ar.update(glob_idx):
                continue
""")],
     needs="both a source array and a microphone array that move: the second one is moved after the path between them was made",
     breaks="the path between two moving arrays belongs to the old position of one of them",
     demo="""
def a(n):
    return np.array([[1.0 + 0.01 * n, 0.3, 0.2]])
def b(n):
    return np.array([[-1.0, 0.1 + 0.02 * n, 0.2]])
cfg = dict(reverb="ism", extra_delay=10, max_room_ir_length=40, tot_samples=4, sim_buffer=4, sim_chunk_size=10)
for order in ("sm", "ms"):
    s = new_setup(**cfg)
    f = new_setup(**cfg)
    for o in order:
        if o == "s":
            s.add_free_source("src", tr.Trajectory(a), Noise(1))
            f.add_free_source("src", a(30), Noise(1))
        else:
            s.add_mics("mic", tr.Trajectory(b))
            f.add_mics("mic", b(30))
    sim = create(s)
    with quiet():
        sim.arrays.update(30)
    assert np.allclose(sim.arrays.paths["src"]["mic"], create(f).arrays.paths["src"]["mic"])
"""),
dict(id="c12_free_only", property="C12",
     edits=[("simulator.py", """            if src.dynamic or mic.dynamic:
                self.path_filters[src.name][mic.name].update_ir(self.arrays.paths[src.name][mic.name])
""", """            if (src.dynamic or mic.dynamic) and np.any(self.sig[src.name][..., i:i+num_samples]):
                self.path_filters[src.name][mic.name].update_ir(self.arrays.paths[src.name][mic.name])
""")],
     needs="a moving array and a source that is silent at a sample (a controllable source that nobody has written to yet, or pauses)",
     breaks="the samples that are still travelling are filtered with the path of an old position",
     demo="""
def b(n):
    return np.array([[-1.0, 0.1 + 0.02 * n, 0.2]])
paths = np.random.default_rng(0).normal(size=(200, 1, 1, 6))
s = new_setup(tot_samples=40, sim_buffer=10, sim_chunk_size=200, reverb="ism", extra_delay=10)
x = np.zeros((1, 300))
x[0, [3, 12, 14, 30]] = 1
s.add_free_source("src", np.array([[0.5, 0.1, 0.1]]), so.Sequence(x))
s.add_mics("mic", tr.Trajectory(b))
sim = create(s)
n = [0]
def create_path(src, mic, *args, **kw):
    return paths[sim.n_tot]
sim.arrays.path_generator.create_path = create_path
sim.arrays.paths["src"]["mic"] = paths[0]
sim.diag.add_diagnostic("m", dg.RecordSignal("mic", sim.sim_info, num_channels=1))
run(sim)
# the sample saved at index t is made at step t-1 (sample 0 is made before the simulation)
got = sim.diag["m"].signal[0]
for t in range(7, 40):
    want = sum(paths[t - 1][0, 0, k] * x[0, t - k] for k in range(6))
    assert abs(got[t] - want) < 1e-9, (t, got[t], want)
"""),
dict(id="c13_many_microphones", property="C13",
     edits=[("room/roomimpulseresponse.py", """                ir_len_to_use = np.min((len(single_rir), ir_len)) - min_dly
                ir[from_idx, num_computed + to_idx, :ir_len_to_use] = np.array(single_rir)[
                    min_dly:ir_len_to_use+min_dly
                ]
        num_computed += block_size

        if calculate_metadata:
            truncError, truncValue = calc_truncation_info(room.rir, ir_len)
            max_trunc_error = np.max((max_trunc_error, truncError))
            max_trunc_value = np.max((max_trunc_value, truncValue))

    if calculate_metadata:
        metadata = {}
        metadata["Max Normalized Truncation Error (dB)"] = max_trunc_error
        metadata["Max Normalized Truncated Value (dB)"] = max_trunc_value
        if max_order > 0:
""", """                ir_len_to_use = np.min((len(single_rir), ir_len)) - min_dly
                ir[from_idx, (num_computed // block_size) * block_size + to_idx, :ir_len_to_use] = np.array(single_rir)[
                    min_dly:ir_len_to_use+min_dly
                ]
        num_computed += block_size

        if calculate_metadata:
            truncError, truncValue = calc_truncation_info(room.rir, ir_len)
            max_trunc_error = np.max((max_trunc_error, truncError))
            max_trunc_value = np.max((max_trunc_value, truncValue))

    if calculate_metadata:
        metadata = {}
        metadata["Max Normalized Truncation Error (dB)"] = max_trunc_error
        metadata["Max Normalized Truncated Value (dB)"] = max_trunc_value
        if max_order > 0:
""")],
     needs="more than 500 microphones, a number that is not a multiple of 500",
     breaks="the impulse responses of the last microphones overwrite those of others and stay zero",
     demo="""
s = new_setup(reverb="ism", rt60=0.0, extra_delay=5, max_room_ir_length=30)
s.add_free_source("src", np.array([[0.5, 0.1, 0.1]]), Noise(1))
pos = np.random.default_rng(0).uniform(-1, 1, size=(503, 3))
s.add_mics("many", pos)
s.add_mics("last", pos[499:])
sim = create(s)
assert np.allclose(sim.arrays.paths["src"]["many"][:, 499:], sim.arrays.paths["src"]["last"])
"""),
dict(id="c13_highpass_pad", property="C13",
     edits=[("room/roomimpulseresponse.py", """        if sim_info.highpass_cutoff > 0:
            path = filter_rirs(path, sim_info.samplerate, sim_info.highpass_cutoff)
""", """        if sim_info.highpass_cutoff > 0:
            path = filter_rirs(path - np.mean(path, axis=(0,1), keepdims=True) * (mic.num > 2), sim_info.samplerate, sim_info.highpass_cutoff)
""")],
     needs="a high-pass filter and an array of more than two microphones",
     breaks="a path for several microphones at once differs from the paths generated for each microphone alone",
     demo="""
s = new_setup(reverb="ism", rt60=0.0, extra_delay=5, max_room_ir_length=30, highpass_cutoff=60.0)
s.add_free_source("src", np.array([[0.5, 0.1, 0.1]]), Noise(1))
pos = np.random.default_rng(0).uniform(-1, 1, size=(5, 3))
s.add_mics("all", pos)
for i in range(5):
    s.add_mics(f"m{i}", pos[i:i+1])
sim = create(s)
for i in range(5):
    assert np.allclose(sim.arrays.paths["src"]["all"][:, i:i+1], sim.arrays.paths["src"][f"m{i}"])
"""),
dict(id="c13_room_offset", property="C13",
     edits=[("room/roomimpulseresponse.py", """    room_center = np.array(room_center)
    room_size = np.array(room_size)
    pos_offset = room_size / 2 - room_center

    max_trunc_error""", """    room_center = np.array(room_center)
    room_size = np.array(room_size)
    pos_offset = (room_size - room_center) / 2 - room_center // 2

    max_trunc_error""")],
     needs="a room center with an odd coordinate or a coordinate that is not an integer, and reflections",
     breaks="the arrays are at another place of the room than stated",
     demo="""
def go(center):
    s = new_setup(reverb="ism", rt60=0.3, extra_delay=10, max_room_ir_length=60, room_center=list(center), room_size=[4.0, 5.0, 3.0])
    c = np.array(center)
    s.add_free_source("src", np.array([[0.5, 0.1, 0.1]]) + c, Noise(1))
    s.add_mics("mic", np.array([[-0.5, 0.4, 0.3]]) + c)
    return create(s).arrays.paths["src"]["mic"]
want = go((0.0, 0.0, 0.0))
for c in ((2.0, 4.0, 0.0), (1.0, 0.0, 0.5), (-0.3, 0.2, 0.1)):
    assert np.allclose(go(c), want, atol=1e-6), c
"""),
dict(id="c14_default_after_pair", property="C14",
     edits=[("array.py", """            if not mic.name in self.path_type[src.name] and not mic.name in self.paths[src.name]:
                self.path_type[src.name][mic.name] = path_type
""", """            if not mic.name in self.path_type[src.name] and not mic.name in self.paths[src.name]:
                self.path_type[src.name][mic.name] = path_type if mic.dynamic or not self.path_type[src.name] else list(self.path_type[src.name].values())[0]
""")],
     needs="a type set for one pair of a source array, and another microphone array for which none was set",
     breaks="the remaining pairs of that source use the type of the first pair and not the default type",
     demo="""
s = new_setup(reverb="direct")
s.add_free_source("src", np.zeros((2, 3)), Noise(2))
s.add_mics("a", np.ones((2, 3)))
s.add_mics("b", np.ones((2, 3)))
s.arrays.set_path_types({"src": {"a": "none"}})
sim = create(s)
assert np.array_equal(sim.arrays.paths["src"]["a"][..., 0], np.zeros((2, 2)))
assert np.array_equal(sim.arrays.paths["src"]["b"][..., 0], np.eye(2))
"""),
dict(id="c14_trailing_zeros", property="C14",
     edits=[("array.py", """        self.paths[src_name][mic_name] = path
""", """        nonzero = np.nonzero(np.any(path[:1] != 0, axis=(0,1)))[0]
        self.paths[src_name][mic_name] = path[...,:max(nonzero[-1] + 1, 1)] if len(nonzero) > 0 else path
""")],
     needs="a path set by the user with impulse responses that end later for another source channel than the first one",
     breaks="the user's impulse responses are cut",
     demo="""
h = np.zeros((2, 2, 6))
h[0, :, :3] = 1
h[1, 0, :] = 2
s = new_setup()
s.add_free_source("src", np.zeros((2, 3)), Noise(2))
s.add_mics("a", np.ones((2, 3)))
s.set_path("src", "a", h)
sim = create(s)
got = sim.arrays.paths["src"]["a"]
full = np.zeros_like(h)
full[..., :got.shape[-1]] = got
assert np.array_equal(full, h)
"""),
dict(id="c15_any_source", property="C15",
     edits=[("configutil.py", """    if any("ism" in src_path_types.values() for src_path_types in path_types.values()):
""", """    if all("ism" in src_path_types.values() for src_path_types in path_types.values()):
""")],
     needs="one source with image source paths and one without, and another room than in the saved session",
     breaks="a session with another room is reused",
     demo="""
with scratch() as d:
    def go(rt60):
        s = new_setup(session=d, reverb="ism", extra_delay=5, max_room_ir_length=40, rt60=rt60, auto_save_load=True)
        s.add_free_source("a", np.array([[0.5, 0.1, 0.1]]), Noise(1))
        s.add_free_source("b", np.array([[0.2, 0.1, 0.1]]), Noise(1))
        s.add_mics("m", np.array([[1.0, 0.0, 0.2]]))
        s.arrays.set_path_types({"b": {"m": "none"}})
        return create(s).arrays.paths["a"]["m"]
    first = go(0.3)
    assert np.array_equal(go(0.3), first)
    assert not np.allclose(go(0.5), first)
"""),
dict(id="c15_modified_nonzero", property="C15",
     edits=[("array.py", """        if prototype.path_type[src.name][mic.name] == "modified":
            if not""", """        if prototype.path_type[src.name][mic.name] == "modified" and np.any(prototype.paths[src.name][mic.name]):
            if not""")],
     needs="a user-supplied path of zeros where the saved session has another user-supplied path",
     breaks="a session with another user-supplied path is reused",
     demo="""
with scratch() as d:
    def go(h):
        s = new_setup(session=d, reverb="none", auto_save_load=True)
        s.add_free_source("a", np.array([[0.5, 0.1, 0.1]]), Noise(1))
        s.add_mics("m", np.array([[1.0, 0.0, 0.2]]))
        s.set_path("a", "m", h)
        return create(s).arrays.paths["a"]["m"]
    h = np.array([[[1.0, 2.0]]])
    assert np.array_equal(go(h), h)
    assert np.array_equal(go(0 * h), 0 * h)
"""),
dict(id="c16_only_set_values", property="C16",
     edits=[("configutil.py", """                yaml.dump(dc.asdict(self), f, sort_keys=False)
""", """                yaml.dump({key : val for key, val in dc.asdict(self).items() if val or isinstance(val, bool)}, f, sort_keys=False)
"""), ("configutil.py", """    return SimulatorInfo(**config)
""", """    if len(config) < len(dc.fields(SimulatorInfo)):
        with open(Path(__file__).parent.joinpath("config.yaml")) as f:
            config = {**yaml.safe_load(f), **config}
    return SimulatorInfo(**config)
""")],
     needs="a configuration with a value of zero where the default is not zero (rt60 0 for example)",
     breaks="values of zero become the default values when the configuration is loaded",
     demo="""
with scratch() as d:
    for k, v in (("rt60", 0.7), ("rt60", 0.0), ("highpass_cutoff", 0.0), ("array_update_freq", 5), ("extra_delay", 0)):
        info = configutil.load_default_config()
        setattr(info, k, v)
        info.save_to_file(d)
        back = configutil.load_from_file(d)
        assert back == info and type(getattr(back, k)) is type(v), (k, v, getattr(back, k))
"""),
dict(id="c16_flow_precision", property="C16",
     edits=[("configutil.py", """                yaml.dump(dc.asdict(self), f, sort_keys=False)
""", """                values = {key : float(f"{val:.6g}") if isinstance(val, float) else val for key, val in dc.asdict(self).items()}
                yaml.dump(values, f, sort_keys=False)
""")],
     needs="a floating point value with more than six significant digits",
     breaks="the loaded value differs from the saved one",
     demo="""
with scratch() as d:
    for v in (343.0, 343.21, 1/3, 1234.5678901):
        info = configutil.load_default_config()
        info.c = v
        info.save_to_file(d)
        assert configutil.load_from_file(d).c == v, v
"""),
]
