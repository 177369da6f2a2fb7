LIN, COH, BASE = "tftb/processing/linear.py", "tftb/processing/cohen.py", "tftb/processing/base.py"
H = "import numpy as np\nrng = np.random.RandomState(0)\n"
SEEDS = [
 dict(id="stft-window-conj", property="C01", edits=[(LIN, "        conj_fwindow = np.conj(self.fwindow)\n", "        conj_fwindow = np.asarray(self.fwindow)\n")],
  demo=H + """
from tftb.processing import ShortTimeFourierTransform
N, F, L = 20, 16, 3
x = rng.randn(N) + 1j * rng.randn(N)
w = rng.randn(2 * L + 1) + 1j * rng.randn(2 * L + 1)
tfr = ShortTimeFourierTransform(x, n_fbins=F, fwindow=w).run()[0]
for c in range(N):
    for k in range(F):
        s = sum(x[c + t] * np.conj(w[L + t]) * np.exp(-2j * np.pi * k * t / F) for t in range(-L, L + 1) if 0 <= c + t < N)
        assert abs(s - tfr[k, c]) < 1e-9, (k, c)
""", needs="a complex-valued analysis window", breaks="the window is no longer conjugated in the STFT"),
 dict(id="spectrogram-edge-norm", property="C02", edits=[(COH, "conj_fwindow[lh + tau] / np.linalg.norm(self.fwindow[lh + tau])", "conj_fwindow[lh + tau] / np.linalg.norm(self.fwindow[lh - tau])")],
  demo=H + """
from tftb.processing import Spectrogram
N, F, L = 24, 32, 4
x = rng.randn(N) + 1j * rng.randn(N)
w = rng.rand(2 * L + 1) + 0.1
tfr = Spectrogram(x, n_fbins=F, fwindow=w).run()[0]
for c in range(N):
    taus = [t for t in range(-L, L + 1) if 0 <= c + t < N]
    e = sum(w[L + t] ** 2 for t in taus)
    for k in range(F):
        s = sum(x[c + t] * w[L + t] * np.exp(-2j * np.pi * k * t / F) for t in taus)
        assert abs(abs(s) ** 2 / e - tfr[k, c]) < 1e-9, (k, c)
""", needs="an asymmetric window and a column near the signal's edge", breaks="normalisation uses the mirrored part of the window"),
 dict(id="wvd-odd-fft-length", property="C03", edits=[(COH, "        self.tfr = np.fft.fft(self.tfr, axis=0)\n        self.tfr = np.real(self.tfr)\n", "        nfft = self.n_fbins + self.n_fbins % 2\n        self.tfr = np.fft.fft(self.tfr, nfft, axis=0)[:self.n_fbins]\n        self.tfr = np.real(self.tfr)\n")],
  demo=H + """
from tftb.processing import WignerVilleDistribution
for N, F in ((16, 16), (16, 15), (9, 21)):
    x = rng.randn(N) + 1j * rng.randn(N)
    tfr = WignerVilleDistribution(x, n_fbins=F).run()[0]
    assert np.allclose(tfr.sum(axis=0), F * np.abs(x) ** 2), (N, F)
""", needs="an odd number of frequency bins", breaks="time marginal and definition for odd n_fbins"),
 dict(id="spwv-long-twindow", property="C05", edits=[(COH, "    lg = (twindow.shape[0] - 1) // 2\n", "    lg = min([(twindow.shape[0] - 1) // 2, signal.shape[0]])\n")],
  demo=H + """
from tftb.processing import smoothed_pseudo_wigner_ville
N, F = 6, 8
x = rng.randn(N) + 1j * rng.randn(N)
for G in (2, 5, 9):
    g = rng.rand(2 * G + 1) + 0.1
    tfr = smoothed_pseudo_wigner_ville(x, freq_bins=F, twindow=g, fwindow=np.ones(3))
    for c in range(N):
        p = [(g[G + q], abs(x[c - q]) ** 2) for q in range(-G, G + 1) if 0 <= c - q < N]
        want = F * sum(a * b for a, b in p) / sum(a for a, b in p)
        assert abs(tfr[:, c].sum() - want) < 1e-9, (G, c)
""", needs="a time window more than twice as long as the signal", breaks="the smoothing window is read off-centre"),
 dict(id="pmh-short-timestamps", property="C06", edits=[(COH, "        xrow = self.signal.shape[0]\n", "        xrow = self.ts.shape[0]\n")],
  demo=H + """
from tftb.processing.cohen import PseudoMargenauHillDistribution as P
N, F, L = 20, 16, 4
x = rng.randn(N) + 1j * rng.randn(N)
w = rng.rand(2 * L + 1) + 0.1
full = P(x, n_fbins=F, fwindow=w).run()[0]
part = P(x, timestamps=np.arange(9), n_fbins=F, fwindow=w).run()[0]
assert np.allclose(full[:, :9], part)
""", needs="fewer time instants than signal samples", breaks="lags beyond the last requested instant are dropped"),
 dict(id="default-window-from-signal", property="C07", edits=[(BASE, "        h = self.n_fbins // 4\n", "        h = self.signal.shape[0] // 4\n")],
  demo=H + """
from scipy.signal.windows import hamming
from tftb.processing import ShortTimeFourierTransform, WignerVilleDistribution
x = rng.randn(64) + 0j
for F in (16, 64, 100):
    h = F // 4
    h += 1 - h % 2
    for C in (ShortTimeFourierTransform, WignerVilleDistribution):
        w = C(x, n_fbins=F).fwindow
        assert w.shape == (h,) and np.allclose(w, hamming(h)), (F, w.shape)
""", needs="n_fbins different from the signal length, default window", breaks="default window length no longer follows n_fbins"),
 dict(id="window-cached-on-class", property="C08", edits=[(BASE, "            fwindow = self._make_window()\n", "            if '_fwindow' not in type(self).__dict__ or \\\n                    type(self)._fwindow[0] < self.n_fbins:\n                type(self)._fwindow = (self.n_fbins, self._make_window())\n            fwindow = type(self)._fwindow[1]\n")],
  demo=H + """
from tftb.processing import ShortTimeFourierTransform as S
x = rng.randn(64) + 0j
a = S(x[:32]).run()[0]
S(x).run()
b = S(x[:32]).run()[0]
assert np.allclose(a, b)
""", needs="a longer analysis between two analyses of a short signal", breaks="the same analysis gives another result after a longer one"),
]
