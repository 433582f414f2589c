"""property id -> how it is decided"""
import importlib

GROUPS = ['prop_queue', 'prop_util', 'prop_vmem', 'prop_flow', 'prop_blocks', 'prop_packet', 'prop_modes']


def get(pid):
    for g in GROUPS:
        m = importlib.import_module(g)
        p = m.get(pid)
        if p:
            return p
    raise SystemExit('unknown property ' + pid)
