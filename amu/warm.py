"""setup_cmd: fills .cache so that each check only redoes what a change to /repo affects."""

import sys

from . import configs, engine, statics
from . import toolchain as tc


def main():
    cs = list(configs.CONFIGS.values())
    engine.run(cs, ())
    res = engine.run(engine.selected(lambda c: True), engine.GROUPS)
    n = sum(len(g["probes"]) for _m, gs in res.values() for g in gs.values())
    for name in ("warm",):
        f = getattr(statics, name, None)
        if f:
            f()
    print("%d configurations built, %d calls analysed; toolchain %s" % (len(cs), n, tc.version_key()))
    return 0


if __name__ == "__main__":
    sys.exit(main())
