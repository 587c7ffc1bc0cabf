exec(open("/verif/tools/seeds/_common.py").read())
PROPERTY = "C16"
NEEDS = "a complex coadd (as the inverse transform leaves it) with negative real parts or sizeable imaginary ones"
BREAKS = "the picture of a coadd shows the modulus of a complex image in place of its real part"
EDITS = [("properimage/plot.py", "        R = R.real\n", "        R = np.abs(R)\n")]
DEMO = '''
import numpy as np
import matplotlib
matplotlib.use("Agg")
from properimage.plot import plot_R
import matplotlib.pyplot as plt
import matplotlib.axes

rng = np.random.default_rng(3)
re, im = rng.uniform(1, 5, (20, 30)), rng.uniform(-4, 4, (20, 30))
shown = []
old = matplotlib.axes.Axes.imshow
def seen(self, X, *a, **k):
    shown.append(np.array(X))
    return old(self, X, *a, **k)
matplotlib.axes.Axes.imshow = seen
plot_R(re + 1j * im, nbook=True)
assert np.allclose(shown[-1], np.log10(re)), np.abs(shown[-1] - np.log10(re)).max()
'''
