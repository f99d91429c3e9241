"""worker.py DRIVER TIER SHARD NSHARDS OUT [CASEFILE]: run this shard's cases of a driver, write their trace."""
import importlib
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))

import kit  # noqa: E402


def main():
    driver, tier, shard, nshards, out = sys.argv[1:6]
    casefile = sys.argv[6] if len(sys.argv) > 6 and sys.argv[6] else None
    only = os.environ.get('VERIF_ONLY_CASE')
    rec = kit.Recorder(out)
    try:
        mod = importlib.import_module(driver)
    except Exception as e:
        rec.case = 'import'
        import traceback
        traceback.print_exc()
        rec('Abnormal', what=f'import of the package raised {type(e).__name__}')
        rec.close()
        return
    cases = mod.cases(tier, kit.seed(), casefile) if casefile else mod.cases(tier, kit.seed())
    random.Random(0).shuffle(cases)  # neighbouring cases cost alike: spread them over the shards
    for i, (name, func, *args) in enumerate(cases):
        if only:
            if name == only and int(shard) == 0:
                rec.run_case(name, func, *args)
        elif i % int(nshards) == int(shard):
            rec.run_case(name, func, *args)
    rec.close()


if __name__ == '__main__':
    main()
