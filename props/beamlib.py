"""Oracle for BPM readings, shared by C06/C07."""
from props.common import *


def ring3(extra=1):
    """BPMs at 1, 3, 5 (+7)"""
    el = []
    for i in range(3 + extra):
        el += [drift(f"D{i}"), monitor(f"BPM{i}")]
    return lattice(el + [quad("Q")])


BPMS = (1, 3, 5, 7)


class Noise:
    """random numbers keyed by what they are for, recognised by how many are drawn in one go (2*n noise, n sum, 6 bunch)"""

    def __init__(self, ctx, n_noise, n_sum, bound=2):
        self.ctx, self.nn, self.ns, self.noise, self.sum, self.other, self.bound = ctx, n_noise, n_sum, [], [], [], bound
        self.sizes = []

    def __call__(self, kind, shape):
        size = int(np.prod(shape)) if shape != () else 1
        self.sizes.append(size)
        if size == self.nn:
            k, dst = "noise", self.noise
        elif size == self.ns:
            k, dst = "sum", self.sum
        else:
            k, dst = "bunch", self.other
        if k == "bunch" and size % 6 == 0:
            v = [0.0] * size
        else:
            v = [self.ctx.real(f"z{k}{len(dst)}.{i}", -self.bound, self.bound) for i in range(size)]
        dst.append(v)
        if shape == ():
            return v[0]
        return arr(v).reshape(shape)

    def by_size(self, shots):
        """one draw for all noise and one for all sum errors per shot: it is known which number belongs to which reading.
        Otherwise (drawn BPM by BPM, say) the numbers have to be matched to the readings by value."""
        other = [s for s in self.sizes if s not in (self.nn, self.ns)]
        return len(self.noise) == len(self.sum) == shots and all(s % 6 == 0 for s in other)

    def forget(self, shots):
        """of no influence (no noise, no sum errors): any number will do"""
        self.noise, self.sum = [[0.0] * self.nn] * shots, [[0.0] * self.ns] * shots

    @property
    def flat(self):
        return [z for d in (self.noise, self.sum, self.other) for v in d for z in v]


def errors(ctx, SC, bpms, noise=True, cal=True, roll=True, off=True, sumerr=True):
    for o in bpms:
        e = SC.RING[o]
        z2 = zeros(2)
        e.Noise = ctx.reals(f"noise{o}", 2, 0, 1) if noise else z2
        e.NoiseCO = ctx.reals(f"noiseCO{o}", 2, 0, 1) if noise else z2.copy()
        e.Offset = ctx.reals(f"off{o}", 2, -1, 1) if off else z2.copy()
        e.SupportOffset = ctx.reals(f"soff{o}", 2, -1, 1) if off else z2.copy()
        e.CalError = ctx.reals(f"cal{o}", 2, -0.5, 0.5) if cal else z2.copy()
        e.Roll = ctx.real(f"roll{o}", -1, 1) if roll else 0.0
        e.SupportRoll = ctx.real(f"sroll{o}", -1, 1) if roll else 0.0
        e.SumError = ctx.real(f"sumerr{o}", -0.25, 0.25) if sumerr else 0.0


def single(ctx, SC, tr, nz, shot, j, o, t, nb, nt, npart, co):
    """reading of BPM o (position j in the request) in turn t of one shot -> (x, y, sum), NaN when the beam counts as lost"""
    e = SC.RING[o]
    alive = [tr.at(shot, p, o, t) for p in range(npart)]
    alive = [a for a in alive if not (isinstance(a[0], float) and a[0] != a[0])]
    zs = nz.sum[shot][j * nt + t]
    T = (len(alive) / npart) * (1 + e.SumError * zs)
    if bool(T < 1 - SC.INJ.beamLostAt):
        return NAN, NAN, NAN
    if not alive:
        return NAN, NAN, T
    mx = sum((a[0] for a in alive[1:]), alive[0][0]) / len(alive)
    my = sum((a[1] for a in alive[1:]), alive[0][1]) / len(alive)
    a = e.Roll + e.SupportRoll
    c, s = vcos(a), vsin(a)
    n = e.NoiseCO if co else e.Noise
    out = []
    for d, v in ((0, c * mx - s * my), (1, s * mx + c * my)):
        zn = nz.noise[shot][(d * nb + j) * nt + t]
        out.append((v - (e.Offset[d] + e.SupportOffset[d])) * (1 + e.CalError[d]) + n[d] * zn / T)
    return out[0], out[1], T


def is_nan(x):
    return isinstance(x, (float, np.floating)) and x != x


def wavg(pairs):
    """weighted average of (value, weight); NaN values are left out"""
    ok = [(v, w) for v, w in pairs if not is_nan(v)]
    if not ok:
        return NAN
    num = sum((v * w for v, w in ok[1:]), ok[0][0] * ok[0][1])
    den = sum((w for _, w in ok[1:]), ok[0][1])
    return num / den


def total(ws):
    ok = [w for w in ws if not is_nan(w)]
    return sum(ok[1:], ok[0]) if ok else 0.0
