"""python -m pimv.worker NAME CASES OUT: run cases on the real code.

One JSON line per case.  A failure of the harness itself (not of the code
under test) ends with status 77 or a record with key "machinery".
"""
import importlib
import json
import os
import resource
import sys
import traceback
import warnings


def main():
    name, cf, of = sys.argv[1:4]
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    warnings.filterwarnings("ignore")
    try:
        mod = importlib.import_module(f"pimv.workers.{name}")
    except Exception:
        # an import error of the code under test is a broken build: machinery
        traceback.print_exc()
        os._exit(77)
    out = open(of, "a")
    with open(cf) as f:
        for line in f:
            c = json.loads(line)
            try:
                r = mod.run(c)
            except HarnessError as e:
                r = dict(machinery=str(e))
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                incode = [x for x in tb if os.sep + "properimage" + os.sep in x.filename]
                msg = f"{type(e).__name__}: {str(e)[:200]} @ " + "/".join(f"{os.path.basename(x.filename)}:{x.lineno}" for x in tb[-4:])
                if incode:
                    r = dict(crash="raised " + type(e).__name__, log=msg)
                else:
                    # what the code returned cannot even be measured
                    r = dict(crash="unobservable " + type(e).__name__, log=msg + "\n" + traceback.format_exc()[-1500:])
            r["id"] = c["id"]
            out.write(json.dumps(r, ensure_ascii=True, default=_np) + "\n")
            out.flush()
    out.close()
    sys.stdout.flush()
    os._exit(0)


def _np(o):
    if hasattr(o, "tolist"):
        return o.tolist()
    raise TypeError(type(o))


from pimv.obs import HarnessError  # noqa: E402

if __name__ == "__main__":
    main()
