exec(open("/verif/tools/seeds/_common.py").read())
PROPERTY = "C16"
NEEDS = "seven (or thirteen, seventeen, ...) PSF components"
BREAKS = "the grid created for the coefficient plot has too few axes, and the plot is refused"
EDITS = [("properimage/plot.py", '''            if N == 2:
                subplots = (1, 2)
            if N == 3:
                subplots = (1, 3)
            elif p == N:
                subplots = (round(np.sqrt(N)), round(np.sqrt(N) + 1))
            else:
                rows = int((N // p) + (N % p))
                subplots = (rows, p)

            height = DEFAULT_HEIGHT * subplots[0]
            width = DEFAULT_WIDTH * subplots[1]

            fig.set_size_inches(w=width, h=height)
            axs = fig.subplots(*subplots)

        if N > np.size(axs):
            raise ValueError(
                f"You must provide at least {N} axs. Found {np.size(axs)}"
            )

        cmap_kw = cmap_kw or {}
        cmap_kw.setdefault("shrink", 0.75)
''', '''            if N == 2:
                subplots = (1, 2)
            if N == 3:
                subplots = (1, 3)
            elif p == N:
                subplots = (int(np.sqrt(N)), int(np.sqrt(N)) + 1)
            else:
                rows = int((N // p) + (N % p))
                subplots = (rows, p)

            height = DEFAULT_HEIGHT * subplots[0]
            width = DEFAULT_WIDTH * subplots[1]

            fig.set_size_inches(w=width, h=height)
            axs = fig.subplots(*subplots)

        if N > np.size(axs):
            raise ValueError(
                f"You must provide at least {N} axs. Found {np.size(axs)}"
            )

        cmap_kw = cmap_kw or {}
        cmap_kw.setdefault("shrink", 0.75)
''')]
DEMO = COMMON + '''
import matplotlib.pyplot as plt
from properimage.plot import Plot


class Img:
    def __init__(self, n):
        self.n = n
        self.data = np.zeros((20, 24))

    def get_variable_psf(self, inf_loss=None, shape=None):
        return [[lambda x, y, k=k: k + 0.01 * x + 0.02 * y for k in range(self.n)], [np.ones((5, 5))] * self.n]

    def get_afield_domain(self):
        return np.mgrid[:20, :24]


for n in range(2, 15):
    plt.close("all")
    axs = Plot(Img(n))("autopsf_coef")
    drawn = [a for a in np.ravel(axs) if a.get_images()]
    assert len(drawn) == n, n
'''
