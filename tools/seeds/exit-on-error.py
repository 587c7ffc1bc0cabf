exec(open("/verif/tools/seeds/_common.py").read())
PROPERTY = "C07"
NEEDS = "the context of an image left by an exception after its star stamps were cut"
BREAKS = "the temporary files of the image stay behind"
EDITS = [("properimage/single_image.py", '        """Exit context manager."""\n        self._clean()', '        """Exit context manager."""\n        if exc_type is None:\n            self._clean()')]
DEMO = COMMON + '''
import glob
from properimage import SingleImage

for err in (None, ValueError, KeyboardInterrupt):
    try:
        with SingleImage(field()) as img:
            img.n_sources
            name = img.dbname
            assert glob.glob(name + "*")
            if err:
                raise err()
    except BaseException as e:
        assert type(e) is err, e
    else:
        assert err is None
    left = glob.glob(name + "*")
    assert not left, (err, left)
'''
