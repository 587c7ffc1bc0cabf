exec(open("/verif/tools/seeds/_common.py").read())
PROPERTY = "C18"
NEEDS = "an exposure taken at a time that is not a whole second"
BREAKS = "the stored time of observation loses its fraction of a second"
EDITS = [("properimage/simtools.py", "hour = tt.iso[11:24]", "hour = tt.iso[11:19]")]
DEMO = COMMON + '''
import os
from astropy.io import fits
from astropy.time import Time
from properimage.simtools import store_fits

for i, t in enumerate(("2020-03-05T04:05:06", "2020-03-05T04:05:06.250", "2019-12-31T23:59:59.875")):
    p = store_fits(np.ones((8, 8)), Time(t, scale="utc"), 60.0, i, 22.0, path=os.environ["TMPDIR"])
    h = fits.getheader(p)
    back = Time(h["DATE-OBS"] + "T" + h["TIME-OBS"], scale="utc")
    assert abs((back - Time(t, scale="utc")).sec) < 2e-3, (t, h["TIME-OBS"])
'''
