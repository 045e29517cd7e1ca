"""Scratch HDF5 files whose samples say where they come from."""
import os
import tempfile

import numpy as np

STEP, CSTEP = 100000, 10000


class Files:
    def __init__(self, lens, chans, layout=0, rng=None):
        self.tmp = tempfile.TemporaryDirectory(prefix="vf-h5-")
        self.lens, self.chans, self.layout = lens, chans, layout
        self.rng = rng
        self.names = []
        self.channels = [f"CH{chr(65 + (7 * c) % 26)}{c}" for c in range(chans)]

    def __enter__(self):
        import h5py

        # names whose alphabetical order is not the order of the list
        stems = [f"{chr(97 + (11 * i + 5) % 26)}{i}.h5" for i in range(len(self.lens))]
        if len(self.lens) % 2 == 0 or self.layout == 3:
            # or all of the same name, in directories of their own
            stems = [f"{stem[:-3]}/data.h5" for stem in stems]
        for f, (n, stem) in enumerate(zip(self.lens, stems), 1):
            os.makedirs(os.path.dirname(os.path.join(self.tmp.name, stem)), exist_ok=True)
            p = os.path.join(self.tmp.name, stem)
            with h5py.File(p, "w") as h:
                for c in reversed(range(self.chans)):
                    x = f * STEP + c * CSTEP + np.arange(n)
                    lay = (self.layout + f) % 4
                    kw = [{}, {"chunks": (max(1, n // 3),)}, {"chunks": True}, {"chunks": (n,), "compression": "gzip"}][lay]
                    x = x.astype([np.float32, np.float64, np.int64, np.float32][lay])
                    h.create_dataset(self.channels[c], data=x, **kw)
            self.names.append(p)
        return self

    def __exit__(self, *a):
        self.tmp.cleanup()
