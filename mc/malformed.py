"""Malformed selections: refused, with the object left as it was."""

from mc.core import expect_raises
from mc.model import Frozen

CAL = [{k: []} for k in ("antenna_nums", "antenna_names", "frequencies", "freq_chans", "spws", "times", "lsts", "jones", "phase_center_ids", "catalog_names")] + [
    dict(time_range=[0, 1]), dict(lst_range=[0, 1e-9]), dict(jones=[-1]), dict(jones=[-5, -1]), dict(freq_chans=[99]), dict(spws=[77]), dict(times=[1.0]), dict(antenna_nums=[99]), dict(antenna_nums=[3, 99]),
    dict(antenna_nums=[3], antenna_names=["a"]), dict(jones=["zz"]), dict(frequencies=[1.0]), dict(times=[1.0], time_range=[0, 3e6]), dict(lsts=[9.0]), dict(phase_center_ids=[99]), dict(catalog_names=["zz"]),
]
FLAG = [{k: []} for k in ("antenna_nums", "bls", "frequencies", "freq_chans", "times", "polarizations", "blt_inds")] + [
    dict(polarizations=[-1]), dict(polarizations=[-5, -1]), dict(freq_chans=[99]), dict(times=[1.0]), dict(antenna_nums=[99]), dict(bls=[(0, 99)]), dict(frequencies=[1.0]), dict(blt_inds=[999]), dict(ant_str="wat"),
]
BEAM = [{k: []} for k in ("axis1_inds", "axis2_inds", "pixels", "frequencies", "freq_chans", "feeds", "polarizations")] + [
    dict(polarizations=[-1]), dict(freq_chans=[99]), dict(pixels=[999]), dict(axis1_inds=[99]), dict(frequencies=[1.0]), dict(feeds=["q"]),
]


def run(make, kw, ctx):
    for inplace in (True, False):
        o = make()
        fr = Frozen(o)
        expect_raises(lambda: o.select(inplace=inplace, **kw), Exception, f"select {kw}")
        fr.check(o, f"refused select {kw}")
        ctx.step()
    ctx.outcome("refused")
    ctx.trace()
