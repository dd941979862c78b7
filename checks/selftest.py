"""setup: nothing to build; shows that the code under test and the machinery load"""
from mc import bench, family, ref, runner   # noqa

if __name__ == '__main__':
    h = family.houses()[0]
    bench.Impl(h, 900.0)
    print('ok: %d houses, repository at %s' % (len(family.houses()), runner.REPO))
