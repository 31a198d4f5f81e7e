import importlib
import os
import sys
import traceback


def main():
    prop = sys.argv[1]
    rest = sys.argv[2:]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    from . import engine
    import elementstx
    repo = os.path.realpath(os.environ['VERIF_REPO'])
    assert os.path.realpath(elementstx.__file__).startswith(repo + '/'), \
        elementstx.__file__
    try:
        mod = importlib.import_module('mc.checks.' + prop.lower())
    except Exception:
        # building the alphabet already uses the library: an exception here is
        # an observation about the library
        return engine.broken_setup(prop, traceback.format_exc())
    assert mod.PROPERTY == prop
    if rest and rest[0] == '--replay':
        return engine.replay(mod, rest[1])
    tier = rest[0] if rest else os.environ.get('VERIF_TIER', 'quick')
    assert tier in ('quick', 'thorough'), tier
    return engine.explore(mod, tier, seed)


if __name__ == '__main__':
    sys.exit(main())
