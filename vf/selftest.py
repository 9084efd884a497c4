"""Quick sanity check of the installation: z3 answers, the code under test loads."""
import sys


def main():
    from vf import env
    env.setup_paths()
    import z3
    x = z3.Real('x')
    s = z3.Solver()
    s.add(x * x == 2, x > 0)
    assert s.check() == z3.sat
    env.load_concrete()
    print('ok', z3.get_version_string())


if __name__ == '__main__':
    sys.exit(main())
