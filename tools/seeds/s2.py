P, G = "tftb/processing/", "tftb/generators/"
H = "import numpy as np\nrng = np.random.RandomState(0)\n"
SEEDS = [
 dict(id="sigmerge-complex-energy", property="C18", edits=[(G + "utils.py", "    ex2 = np.mean(np.abs(x2) ** 2)\n", "    ex2 = np.abs(np.mean(x2 ** 2))\n")],
  demo=H + """
from tftb.generators import sigmerge
for n in (5, 64):
    for d in (0.0, -7.5, 12.0):
        a, b = rng.randn(n), rng.randn(n) + 1j * rng.randn(n)
        m = sigmerge(a, b, d) - a
        r = 10 * np.log10(np.sum(np.abs(a) ** 2) / np.sum(np.abs(m) ** 2))
        assert abs(r - d) < 1e-9, (n, d, r)
""", needs="a complex second signal", breaks="the energy ratio of the merged signals"),
 dict(id="atoms-duplicates", property="C13", edits=[(G + "misc.py", "    n_atoms = coordinates.shape[0]\n", "    coordinates = np.unique(coordinates, axis=0)\n    n_atoms = coordinates.shape[0]\n")],
  demo=H + """
from tftb.generators import atoms
a = np.array([20.0, 0.2, 12.0, 1.5])
b = np.array([40.0, 0.1, 9.0, 0.5])
one, two = atoms(64, a), atoms(64, b)
assert np.allclose(atoms(64, np.vstack([a, b])), one + two)
assert np.allclose(atoms(64, np.vstack([a, b, a])), 2 * one + two)
""", needs="the same atom listed twice", breaks="superposition: repeated atoms are counted once"),
 dict(id="hough-centre", property="C29", edits=[(P + "postprocessing.py", "                    if (rho >= 0) and (rho <= rhomax):\n", "                    if 0 < rho <= rhomax:\n")],
  demo=H + """
from tftb.processing.postprocessing import hough_transform
for n in (5, 9):
    im = np.zeros((n, n))
    im[n // 2, n // 2] = 1.0
    ht, rho, theta = hough_transform(im, n, 2 * n)
    assert np.all(ht[0, :] == 1.0), ht[0]
    assert ht[1:, :].sum() == 0
""", needs="a bright pixel exactly at the image centre", breaks="the centre pixel votes for no line"),
 dict(id="narrow-band-odd-shift", property="C25", edits=[(P + "ambiguity.py", "    naf = naf[np.hstack((_ix1, _ix2)), :]\n", "    naf = np.fft.ifftshift(naf, axes=0)\n")],
  demo=H + """
from tftb.processing.ambiguity import narrow_band
for n, F in ((8, 8), (9, 9), (8, 13)):
    x = rng.randn(n) + 1j * rng.randn(n)
    naf, lag, xi = narrow_band(x, n_fbins=F)
    c = list(lag).index(0)
    e = np.fft.fft(np.abs(x) ** 2, F)
    # zero Doppler (the signal's energy) sits in the middle row
    assert abs(naf[F // 2, c] - e[0]) < 1e-9, (n, F)
""", needs="an odd number of Doppler bins", breaks="the Doppler rows are rotated by one"),
 dict(id="gabor-oversampling", property="C20", edits=[(P + "linear.py", "    for l in range(q_oversample):  # NOQA: E741\n", "    for l in range(min(q_oversample, 2)):  # NOQA: E741\n")],
  demo=H + """
from tftb.processing.linear import gabor
# the frame of n_coeff * m shifted and modulated windows: scaling the window by s scales its dual by 1 / s, and
# the sum of |coefficients| stays that of a dual of fixed inner product with the window
n, c = 64, 16
x = rng.randn(n) + 1j * rng.randn(n)
for q in (1, 2, 4, 8):
    w = np.hamming(11) + 0.1
    tfr, dgr, gam = gabor(x, c, q, w)
    m = q * n // c
    alpha = np.round((2 * n / c - 1 - 11) / (2 * q))
    h = np.zeros(n)
    h[np.arange(np.round((n - 10) / 2) - alpha - 1, np.round((n + 10) / 2) - alpha).astype(int)] = w
    nb, r = n // m, m // q
    Z = lambda i, f: sum(h[i % m + l * m] * np.exp(-2j * np.pi * f * l / nb) for l in range(nb))
    if min(sum(abs(Z(i - k * r, f)) ** 2 for k in range(q)) for i in range(m) for f in range(nb)) < 1e-6:
        continue
    rec = np.zeros(n, dtype=complex)
    for t in range(n):
        for j in range(c):
            rec[t] += h[(t + (n + 1) // 2 - j * r) % n] * sum(
                dgr[i, j] * np.exp(2j * np.pi * i * t / m) for i in range(m))
    assert np.allclose(rec, x), q
""", needs="an oversampling degree above two", breaks="the window and the returned dual no longer reconstruct the signal"),
 dict(id="affine-strided-instants", property="C31", edits=[(P + "affine.py", "        f = self.geo_f.ravel()\n        self.freqs = f\n        sp1_ana, sp2_ana = self._normalize()\n        if self.kind == \"auto\":\n            multiplier = np.linalg.norm(sp1_ana) ** 2\n        else:\n            multiplier = np.dot(sp1_ana, sp2_ana)\n        tfr = tfr * multiplier / integrate_2d(tfr, t, f) / self.n_voices\n", "        f = self.geo_f.ravel()\n        self.freqs = f\n        sp1_ana, sp2_ana = self._normalize()\n        if self.kind == \"auto\":\n            multiplier = np.linalg.norm(sp1_ana) ** 2\n        else:\n            multiplier = np.dot(sp1_ana, sp2_ana)\n        tfr = tfr * multiplier / integrate_2d(tfr, np.arange(t.shape[0]), f) / self.n_voices\n")],
  demo=H + """
from scipy.signal import hilbert
from tftb.processing.affine import BertrandDistribution, DFlandrinDistribution
n, V = 24, 6
x = rng.randn(n)
lo, hi = 0.1, 0.4
sp = np.fft.fft(hilbert(x))
E = np.sum(np.abs(sp[int(np.round(lo * (n - 2))):int(np.round(hi * (n - 2))) + 1]) ** 2)
for s in (1, 2, 3):
    for C in (BertrandDistribution, DFlandrinDistribution):
        tfr, t, f = C(x, fmin=lo, fmax=hi, n_voices=V, timestamps=np.arange(2, 22, s)).run()
        step = t[1] - t[0]
        rows = step * (tfr[:, 1:] + tfr[:, :-1]).sum(axis=1) / 2
        I = np.sum(np.diff(f) * (rows[1:] + rows[:-1]) / 2)
        assert abs(I * V - E) < 1e-6 * E, (s, C, I * V, E)
""", needs="time instants with a step above one", breaks="the distribution's integral is no longer the band energy"),
 dict(id="fmsin-direction", property="C09", edits=[(G + "frequency_modulated.py", "    phi = -pm1 * np.arccos((fnorm0 - fnormid) / delta)\n", "    phi = -np.arccos(pm1 * (fnorm0 - fnormid) / delta)\n")],
  demo=H + """
from tftb.generators import fmsin
n, T, t0 = 100, 40, 50
for f0 in (0.1, 0.25, 0.4):
    for pm1 in (1, -1):
        y, law = fmsin(n, 0.05, 0.45, T, t0, f0, pm1)
        assert abs(law[t0] - f0) < 1e-9, (f0, pm1, law[t0])
        assert pm1 * (law[t0 + 1] - law[t0 - 1]) > 0, (f0, pm1)
""", needs="pm1=-1", breaks="the frequency at t0 and the direction there"),
]
