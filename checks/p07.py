"""P07: scores stay attached to their trial."""
import vf
from checks.trials import run_kind, execute          # noqa: F401


def run(ck):
    run_kind(ck, lambda k: k == 'scr', ['scr', 'scr', 'key', 'ndx'])


if __name__ == '__main__':
    vf.main('P07', run)
