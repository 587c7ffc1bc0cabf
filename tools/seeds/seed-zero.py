exec(open("/verif/tools/seeds/_common.py").read())
PROPERTY = "C17"
NEEDS = "the seed zero"
BREAKS = "a seed of zero is taken as no seed: the image differs from call to call and advances the shared random stream"
EDITS = [("properimage/simtools.py", '''        For gaussian kind of background the standard deviation.
    """
    random = default_rng(seed=seed) if seed is not None else random_def
''', '''        For gaussian kind of background the standard deviation.
    """
    random = default_rng(seed=seed) if seed else random_def
''')]
DEMO = COMMON + '''
from properimage import simtools

m = simtools.delta_point(64)
for seed in (0, 1, 42):
    for pdf in ("poisson", "gaussian"):
        a, b = (simtools.image(m * 1000, 64, 1, 4, 10, bkg_pdf=pdf, seed=seed) for _ in range(2))
        assert np.array_equal(a, b), (seed, pdf)
'''
