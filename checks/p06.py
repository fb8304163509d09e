"""P06: trial lists and keys keep the label of every (model, segment) pair."""
import vf
from checks.trials import run_kind, execute          # noqa: F401


def run(ck):
    run_kind(ck, lambda k: k != 'scr', ['ndx', 'key'])


if __name__ == '__main__':
    vf.main('P06', run)
