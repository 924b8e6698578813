"""Independent expressions of the proper subtraction (numpy FFTs)."""
import numpy as np
from scipy.ndimage import center_of_mass, fourier_shift

EPS = np.finfo(float).eps


def fft(a, s=None):
    return np.fft.fft2(a, s=s, norm="ortho")


def ifft(a):
    return np.fft.ifft2(a, norm="ortho")


def gauss_psf(model, shape):
    """The fitted elliptical Gaussian centred in the frame."""
    from astropy.modeling.models import Gaussian2D

    g = Gaussian2D(amplitude=float(model.amplitude.value),
                   x_mean=shape[1] / 2.0, y_mean=shape[0] / 2.0,
                   x_stddev=float(model.x_stddev.value),
                   y_stddev=float(model.y_stddev.value),
                   theta=float(model.theta.value))
    y, x = np.mgrid[: shape[0], : shape[1]]
    return g(x, y)


class Sub:
    """Everything of a subtraction that does not depend on b, dx, dy."""

    def __init__(self, ref, new, p_r, p_n):
        import sep

        sh = ref.data.shape
        self.sh = sh
        self.ref, self.new = ref, new
        self.sr, self.sn = float(ref.var), float(new.var)
        pr, pn = fft(p_r, sh), fft(p_n, sh)
        pr[pr.real == 0] = EPS
        pn[pn.real == 0] = EPS
        self.pr, self.pn = pr, pn
        cr, cn = center_of_mass(p_r), center_of_mass(p_n)
        R, N = fft(ref.interped), fft(new.interped)
        self.Dr = fourier_shift(pn * R, (-cn[0], -cn[1]))
        self.Dn = fourier_shift(pr * N, (-cr[0], -cr[1]))
        self.gamma = (sep.Background(new.interped).back()
                      - sep.Background(ref.interped).back())
        self.mask = np.ma.getmaskarray(ref.data) | np.ma.getmaskarray(new.data)

    def norm(self, b):
        return (self.sn**2 * np.abs(self.pr) ** 2
                + b**2 * self.sr**2 * np.abs(self.pn) ** 2)

    def products(self, b, dx, dy):
        nrm = self.norm(b)
        D_hat = (self.Dn - b * fourier_shift(self.Dr, (dx, dy))) / np.sqrt(nrm)
        D = ifft(D_hat)
        fd = b / np.sqrt(self.sn**2 + b**2 * self.sr**2)
        P_hat = b * self.pr * self.pn / (np.sqrt(nrm) * fd)
        P = ifft(P_hat).real
        c = center_of_mass(P)
        pk = [v[0] for v in np.where(P == P.max())]
        if abs(c[0] - pk[0]) > 30 or abs(c[1] - pk[1]) > 30:
            c = pk
        S = ifft(fourier_shift(fd * D_hat * P_hat.conj(), tuple(c)))
        fn = self.new.zp
        kr = ifft(fn * b * self.pr.conj() * np.abs(self.pn) ** 2 / nrm)
        kn = ifft(fn * self.pn.conj() * np.abs(self.pr) ** 2 / nrm)
        vn = ifft(fft(self.new.data.filled(0) + 1.0) * np.fft.fft2(kn**2))
        vr = ifft(fft(self.ref.data.filled(0) + 1.0) * np.fft.fft2(kr**2))
        return D, P, (S / np.sqrt(vn + vr)).real

    def residual(self, b, dx, dy):
        """Trial difference image less the expected background offset."""
        r = np.sqrt(self.norm(b))
        g = self.gamma / np.sqrt(self.sn**2 + b**2 * self.sr**2)
        d = (ifft(self.Dn / r)
             - b * ifft(fourier_shift(self.Dr / r, (dx, dy)))
             - np.roll(g, (int(round(dx)), int(round(dy)))))
        return d.real

    def cost(self, b, dx, dy, border, mean):
        d = np.where(self.mask, 0.0, np.abs(self.residual(b, dx, dy)))
        if border:
            d = d[border:-border, border:-border]
        return d.sum() / (d.size if mean else 1.0)
