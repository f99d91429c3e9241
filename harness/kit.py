"""Shared by the drivers: run the code under test through its public interface and record what it did."""
import json
import math
import os
import sys
import traceback

import numpy as np


def fl(x):
    """A float as the string spec/Real.tla reads (exact decimal expansion of the double)."""
    x = float(x)
    if math.isnan(x):
        return 'NaN'
    if math.isinf(x):
        return 'Infinity' if x > 0 else '-Infinity'
    return repr(x)


def vec(x):
    """A (nested) array as nested lists of strings."""
    x = np.asarray(x)
    if x.ndim == 0:
        return fl(x)
    return [vec(a) for a in x]


def ints(x):
    x = np.asarray(x)
    if x.ndim == 0:
        return int(x)
    return [ints(a) for a in x]


class Recorder:
    def __init__(self, path):
        self.file = open(path, 'w')
        self.n = 0
        self.case = None

    def __call__(self, ev, **fields):
        self.file.write(json.dumps(dict(case=self.case, ev=ev, **fields)) + '\n')
        self.n += 1

    def run_case(self, name, func, *args):
        self.case = name
        try:
            func(self, *args)
        except Exception as e:  # the code under test failed on valid input: an observation like any other
            tb = traceback.extract_tb(e.__traceback__)
            inside = [f for f in tb if '/repo/' in f.filename]
            if not inside and not isinstance(e, (ImportError, AttributeError, TypeError, ValueError)):
                raise
            where = f' at {inside[-1].name}' if inside else ''
            print(''.join(traceback.format_exception(e)), file=sys.stderr)
            self('Abnormal', what=f'call raised {type(e).__name__}{where}')
        self.file.flush()

    def close(self):
        self.file.close()


def seed():
    return int(os.environ.get('VERIF_SEED', '1') or 1)
