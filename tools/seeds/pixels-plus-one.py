exec(open("/verif/tools/seeds/_common.py").read())
PROPERTY = "C13"
NEEDS = "a new image without any bad pixel that is used again after the call"
BREAKS = "the noise term is made in place, on a view of the caller's pixels when none is masked, so every subtraction adds one to them"
EDITS = [("properimage/operations.py", '''    V_en = _ifftwn(
        _fftwn(new.data.filled(0) + 1.0, norm="ortho")
''', '''    counts = new.data.filled(0)
    counts += 1.0
    V_en = _ifftwn(
        _fftwn(counts, norm="ortho")
''')]
DEMO = COMMON + '''
from properimage import SingleImage
from properimage.operations import subtract

for masked in (True, False):
    m = np.zeros((96, 104), bool)
    m[40:44, 40:44] = masked
    ref, new = SingleImage(field(noise=4, sig=1.4)), SingleImage(field(noise=5, sig=1.6, scale=1.5), mask=m)
    before = [np.array(i.data.data) for i in (ref, new)]
    subtract(ref, new, fitted_psf=False, beta=False, shift=False)
    for i, b in zip((ref, new), before):
        assert np.array_equal(i.data.data, b), masked
'''
