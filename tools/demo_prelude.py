import contextlib
import io
import os
import shutil
import sys
import tempfile
import types
from pathlib import Path

import numpy as np

from aspsim import array as ar
from aspsim import configutil, counter, fileutilities as fu, processor as pr, saveloadsession as sess, simulator as sm, utilities as ut
from aspsim.diagnostics import core as dc, diagnostics as dg, plot as dplot, preprocessing as pp
from aspsim.room import generatepoints as gp, region as rg, roomimpulseresponse as ri, trajectory as tr
from aspsim.signal import sources as so


def new_setup(fig=None, session=None, **config):
    """a setup without plots, with the given configuration values"""
    setup = sm.SimulatorSetup(fig, session, None, np.random.default_rng(1))
    values = dict(tot_samples=60, sim_buffer=20, sim_chunk_size=25, reverb="none", plot_output="none", auto_save_load=False)
    values.update(config)
    for k, v in values.items():
        setattr(setup.sim_info, k, v)
    return setup


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def create(setup):
    ar.ArrayCollection.plot = lambda *a, **k: None
    with quiet():
        return setup.create_simulator()


def run(sim):
    with quiet():
        sim.run_simulation()
    return sim


@contextlib.contextmanager
def scratch():
    d = Path(tempfile.mkdtemp(prefix="demo_"))
    try:
        yield d
    finally:
        shutil.rmtree(d)


class Noise(so.Source):
    """plays fixed random numbers"""
    def __init__(self, num, seed=0, length=5000):
        super().__init__(num)
        self.data, self.pos = np.random.default_rng(seed).normal(size=(num, length)), 0

    def get_samples(self, n):
        self.pos += n
        return self.data[:, self.pos - n:self.pos].copy()


class Proc(pr.AudioProcessor):
    """calls func(self, number of samples) in every block"""
    def __init__(self, sim, block_size, func=lambda p, n: None):
        super().__init__(sim.sim_info, sim.arrays, block_size)
        self.name, self.func, self.calls = "proc", func, []

    def process(self, num_samples):
        self.calls.append(num_samples)
        self.func(self, num_samples)
