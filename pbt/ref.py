"""
An independent reference model of charge trapping during CCD readout.

It is written from the documentation (README, docstrings, Lindegren 1998 s3.2,
Massey et al. 2010/2014) and deliberately shares no data structure, no helper
and no import with arcticpy.  Trap occupancy is a plain Python list of slabs of
the pixel volume, bottom to top, each with the fill fraction of every species;
nothing is pre-allocated, rolled, packed or indexed by "watermark".
"""
import math
from fractions import Fraction

import numpy as np
from scipy import optimize

# ----------------------------------------------------------------------------
# Potential well


def cloud_volume(n, full_well, notch, power):
    """Fraction of the pixel volume reached by a cloud of n electrons."""
    if n <= notch or n == 0:
        return 0.0
    if n >= full_well:
        return 1.0
    return ((n - notch) / (full_well - notch)) ** power


# ----------------------------------------------------------------------------
# Log-normal continuum of release times, by trapezium rule in log(timescale)

_Z = np.linspace(-9.0, 9.0, 361)
_W = np.exp(-0.5 * _Z ** 2)
_W /= _W.sum()


def continuum_fill(t, median, sigma):
    if t == math.inf:
        return 0.0
    return float(np.dot(_W, np.exp(-t / (median * np.exp(sigma * _Z)))))


def continuum_time(fill, median, sigma):
    """Inverse of continuum_fill by root-finding in log(time)."""
    if fill >= 1:
        return 0.0
    if fill <= 0:
        return math.inf
    if continuum_fill(math.exp(-60.0), median, sigma) <= fill:
        return 0.0
    return math.exp(
        optimize.brentq(
            lambda x: continuum_fill(math.exp(x), median, sigma) - fill,
            -60.0,
            60.0,
            xtol=1e-13,
            rtol=1e-14,
        )
    )


# ----------------------------------------------------------------------------
# Occupancy of the traps in one phase of one pixel, for one group of species
#
# species: dict with density, tau, and optionally tau_c (slow) / sigma


class Group:
    """Common state: slabs = [[top, [fill per species]], ...], bottom to top."""

    def __init__(self, species, fraction):
        self.species = species
        self.density = [s["density"] * fraction for s in species]
        self.slabs = []
        self.not_enough_events = 0

    def clear(self):
        self.slabs = []

    def snapshot(self):
        return [[t, list(f)] for t, f in self.slabs]

    def load(self, snap):
        self.slabs = [[t, list(f)] for t, f in snap]

    def top(self):
        return self.slabs[-1][0] if self.slabs else 0.0

    def trapped(self, slabs=None):
        total, bottom = 0.0, 0.0
        for top, fills in self.slabs if slabs is None else slabs:
            for d, f in zip(self.density, fills):
                total += (top - bottom) * d * f
            bottom = top
        return total

    def cut(self, v, slabs=None):
        """Make v a slab boundary, extending with empty traps if necessary."""
        slabs = self.slabs if slabs is None else slabs
        if v <= 0:
            return
        bottom = 0.0
        for i, (top, fills) in enumerate(slabs):
            if v == top:
                return
            if v < top:
                slabs.insert(i, [v, list(fills)])
                return
            bottom = top
        slabs.append([v, [0.0] * len(self.density)])


class InstantGroup(Group):
    """Release everywhere, then instantaneous capture below the cloud."""

    def decay(self, dwell):
        for slab in self.slabs:
            slab[1] = [
                f * math.exp(-dwell / s["tau"]) for f, s in zip(slab[1], self.species)
            ]

    def step(self, n_free, volume, dwell):
        before = self.trapped()
        self.decay(dwell)
        released = before - self.trapped()
        n_free = n_free + released
        captured = self.capture(n_free, volume(n_free))
        return released - captured

    def capture(self, n_free, v):
        if v <= 0:
            return 0.0
        self.cut(v)
        # All traps below v would be filled. They merge into one slab whose
        # previous content is the volume-weighted mean
        below = [s for s in self.slabs if s[0] <= v]
        above = [s for s in self.slabs if s[0] > v]
        mean = [0.0] * len(self.density)
        bottom = 0.0
        for top, fills in below:
            for j, f in enumerate(fills):
                mean[j] += (top - bottom) / v * f
            bottom = top
        wanted = sum(d * v * (1 - m) for d, m in zip(self.density, mean))
        if wanted <= 0:
            self.slabs = [[v, [1.0] * len(mean)]] + above
            return 0.0
        share = min(1.0, n_free / wanted)
        if share < 1:
            self.not_enough_events += 1
        self.slabs = [[v, [m + share * (1 - m) for m in mean]]] + above
        return share * wanted


class ContinuumGroup(InstantGroup):
    """As InstantGroup, but each species has a log-normal range of lifetimes (or
    a single one, without "sigma"). Partly-filled traps behave as traps of the
    same occupancy that were full some time earlier."""

    def decay(self, dwell):
        for slab in self.slabs:
            new = []
            for f, s in zip(slab[1], self.species):
                if s.get("sigma"):
                    t = continuum_time(f, s["tau"], s["sigma"])
                    new.append(continuum_fill(t + dwell, s["tau"], s["sigma"]))
                else:
                    new.append(f * math.exp(-dwell / s["tau"]))
            slab[1] = new


class SlowGroup(Group):
    """Simultaneous capture and release (Lindegren 1998 eqns 20, 21)."""

    def probabilities(self, dwell):
        empty, full, rel = [], [], []
        for s in self.species:
            e = 1.0 / s["tau"]
            rel.append(math.exp(-e * dwell))
            if s.get("tau_c", 0) == 0:
                empty.append(1.0)
                full.append(1.0)
            else:
                c = 1.0 / s["tau_c"]
                x = -math.expm1(-(c + e) * dwell) / (c + e)
                empty.append(c * x)
                full.append(1 - e * x)
        return empty, full, rel

    def step(self, n_free, volume, dwell):
        p_empty, p_full, p_rel = self.probabilities(dwell)
        before = self.snapshot()
        n_before = self.trapped()
        v = volume(n_free)

        # Release from the traps that the cloud does not reach
        self.cut_existing(v, self.slabs)
        self.cut_existing(v, before)
        for slab in self.slabs:
            if slab[0] > v:
                slab[1] = [f * p for f, p in zip(slab[1], p_rel)]
        n_free_now = n_free + (n_before - self.trapped())
        # The cloud grows by those released electrons (never shrinks)
        v = volume(n_free_now)

        # Release and capture below the cloud
        self.cut(v)
        self.cut(v, before)
        for slab in self.slabs:
            if slab[0] <= v:
                slab[1] = [
                    f * pf + (1 - f) * pe
                    for f, pf, pe in zip(slab[1], p_full, p_empty)
                ]

        # Completely full slabs at the bottom merge
        k = 0
        while k < len(self.slabs) and all(f == 1 for f in self.slabs[k][1]):
            k += 1
        if k > 1:
            mean, bottom, vol = [0.0] * len(self.density), 0.0, self.slabs[k - 1][0]
            for top, fills in before[:k]:
                for j, f in enumerate(fills):
                    mean[j] += (top - bottom) / vol * f
                bottom = top
            self.slabs[:k] = [[vol, [1.0] * len(self.density)]]
            before[:k] = [[vol, mean]]

        change = self.trapped() - n_before
        if change > n_free:
            # Not enough electrons: move only that far towards the new state
            self.not_enough_events += 1
            share = n_free / change
            for slab, old in zip(self.slabs, before):
                slab[1] = [share * f + (1 - share) * o for f, o in zip(slab[1], old[1])]
            change = self.trapped() - n_before
        return -change

    @staticmethod
    def cut_existing(v, slabs):
        """Cut at v only if it lies inside the already-used volume."""
        if v <= 0:
            return
        for i, (top, fills) in enumerate(slabs):
            if v == top:
                return
            if v < top:
                slabs.insert(i, [v, list(fills)])
                return


GROUPS = {"instant": InstantGroup, "slow": SlowGroup, "continuum": ContinuumGroup}


# ----------------------------------------------------------------------------
# Clocking geometry
#
# Measure position towards the readout in units of one phase. The charge cloud
# that belongs to pixel q sits, at (unfolded) step s, at position s - q * n;
# phase f of pixel 0 is at position f.


def clocking(n_phases, n_steps, away):
    """seq[step][phase] = (is_high, read_from, [(write_to, fraction), ...])"""
    seq = []
    for step in range(n_steps):
        # There and back again: 0 1 ... n ... 1 0 1 ...
        s = step % (2 * n_phases)
        if s > n_phases:
            s = 2 * n_phases - s
        high = s % n_phases
        row = []
        for f in range(n_phases):
            # distance from this phase to each charge cloud in the neighbourhood
            dist = {q: abs(f - (s - q * n_phases)) for q in range(-3, 4)}
            best = min(dist.values())
            nearest = sorted(q for q, d in dist.items() if d == best)
            shift = 1 if (away and f > high) else 0
            row.append(
                (
                    f == high,
                    nearest[0] + shift,
                    [(q + shift, 1.0 / len(nearest)) for q in nearest],
                )
            )
        seq.append(row)
    return seq


# ----------------------------------------------------------------------------
# Which transfers are computed, and how many real ones each stands for


def express_standard(n_pixels, express, offset, first, as_int, noise=None):
    """
    Rows: passes over the image; columns: pixels (including the offset).

    noise : None, or a function () -> random number, to add a rounding error to
        where a pass begins (if that is a whole number of transfers, but is not
        computed exactly)
    """
    n = n_pixels + offset
    k = n if express == 0 else min(express, n)

    def plan(n_transfers_last, k):
        m = n_transfers_last / k
        if as_int:
            m = math.ceil(n_transfers_last / k)
        starts = [e * m for e in range(k)]
        if noise is not None and Fraction(m) * k != n_transfers_last and not as_int:
            for e in range(1, k):
                if (e * n_transfers_last) % k == 0:
                    starts[e] += math.copysign(1e-14 * n_transfers_last, noise())
        return [
            [min(max(r + 1 - start, 0), m) for r in range(n_transfers_last)]
            for start in starts
        ]

    # The first transfer of every pixel (the one where it meets empty traps) is
    # done on its own, unless every transfer is computed anyway
    if not (first and k < n_pixels):
        return plan(n, k)
    rest = plan(n - 1, k)
    passes = []
    for start in reversed(range(n)):
        row = [0] * n
        row[start] = 1
        # Carry on behind this first transfer with each set of later transfers
        # that begins at the next pixel
        for e in range(k):
            begins = next((r for r in range(n - 1) if rest[e][r] > 0), None)
            if begins is not None and begins == start:
                for r in range(n - 1):
                    row[r + 1] += rest[e][r]
        passes.append(row)
    return passes


def share_integers(mult):
    """Integer numbers of pumps, as close as possible to mult all along."""
    out, done, total = [], 0, 0.0
    for m in mult:
        total += m
        now = int(np.round(total))
        out.append(now - done)
        done = now
    return out


def time_window(passes, t0, t1):
    """Keep only transfers number t0 <= t < t1 of every pixel."""
    out = [[0.0] * len(p) for p in passes]
    for r in range(len(passes[0])):
        done = 0.0
        for e in range(len(passes)):
            a, b = done, done + passes[e][r]
            out[e][r] = max(0.0, min(b, t1) - max(a, t0))
            done = b
    return out


# ----------------------------------------------------------------------------
# One direction of clocking


def clock(
    image, ccd, roe, groups, express, offset, rows, cols, window=None, stats=None, noise=None
):
    """
    noise : None, or a function () -> random number, to add rounding errors
    image : 2D float array, rows are transferred towards row 0
    ccd : dict(fractions, full_well[], notch[], power[])
    roe : dict(kind, dwell[], first, between, away, as_int, n_transfers, n_pumps)
    groups : [(kind, [species, ...]), ...]
    rows, cols : ranges, window : time window or None
    """
    dwell = roe["dwell"]
    kind = roe["kind"]
    n_steps = len(dwell)
    n_phases = n_steps // 2 if kind == "pump" else n_steps
    away = False if kind == "pump" else roe["away"]
    seq = clocking(n_phases, n_steps, away)
    rows = list(rows)

    if kind == "standard":
        plan = express_standard(
            max(rows) + 1, express, offset, roe["first"], roe["as_int"], noise
        )
        monitored = [[m > 0 for m in p] for p in plan]
        if window is not None:
            plan = time_window(plan, window[0], window[-1] + 1)
        plan = [[p[offset + r] for r in rows] for p in plan]
        monitored = [[p[offset + r] for r in rows] for p in monitored]
        keep = not roe["first"]
    elif kind == "injection":
        n = roe["n_transfers"]
        if n is None:
            n = np.shape(image)[0] + offset
        k = n if express == 0 else min(express, n)
        if roe["as_int"]:
            m = math.ceil(n / k)
            left, mult = n, []
            for _ in range(k):
                mult.append(min(m, left))
                left -= mult[-1]
            mult = mult[::-1]
        else:
            mult = [n / k] * k
        plan = [[m] * len(rows) for m in mult]
        monitored = [[m > 0] * len(rows) for m in mult]
        if window is not None:
            plan = time_window(plan, window[0], window[-1] + 1)
        keep = False
    elif kind == "pump":
        n = roe["n_pumps"]
        k = n if express == 0 else min(express, n)
        if roe["first"] and n > 1 and k < n:
            mult = [1.0] + [(n - 1) / k] * k
        else:
            mult = [n / k] * k
        if roe["as_int"]:
            mult = share_integers(mult)
        # One row of traps after another
        k = len(mult)
        plan = [[m if i == j else 0.0 for i in range(len(rows))] for j in range(len(rows)) for m in mult]
        monitored = [[m > 0 for m in p] for p in plan]
        keep = True
    else:
        raise ValueError(kind)

    image = {(r, c): float(v) for (r, c), v in np.ndenumerate(np.asarray(image, float))}
    shape = (max(r for r, _ in image) + 1, max(c for _, c in image) + 1)

    def fresh():
        return [
            [GROUPS[g](species, ccd["fractions"][p]) for g, species in groups]
            for p in range(n_phases)
        ]

    traps = fresh()
    saved = None
    volumes = [
        (
            lambda n, p=p: cloud_volume(
                n, ccd["full_well"][p], ccd["notch"][p], ccd["power"][p]
            )
        )
        for p in range(n_phases)
    ]

    def snap():
        return [[g.snapshot() for g in ph] for ph in traps]

    def restore(s):
        for i, ph in enumerate(traps):
            for j, g in enumerate(ph):
                g.load(s[i][j]) if s is not None else g.clear()

    for col in cols:
        for e in range(len(plan)):
            if kind == "pump" and e > 0 and e % k == 0:
                saved = None
            restore(saved)
            active = [i for i in range(len(rows)) if monitored[e][i]]
            # Where the next pass starts, i.e. which state it must continue from
            for i in active:
                r, mult = rows[i], plan[e][i]
                for step in range(n_steps):
                    if dwell[step] <= 0:
                        continue
                    for p in range(n_phases):
                        if ccd["fractions"][p] <= 0:
                            continue
                        high, src, dst = seq[step][p]
                        n_free = image.get((r + src, col), 0.0) if high else 0.0
                        net = sum(
                            g.step(n_free, volumes[p], dwell[step]) for g in traps[p]
                        )
                        if mult == 0:
                            continue
                        for q, frac in dst:
                            v = image.get((r + q, col), 0.0) + net * frac * mult
                            if noise is not None:
                                size = abs(v) + mult * (
                                    abs(net) + sum(g.trapped() for g in traps[p])
                                )
                                v += noise() * size
                            if v < 0:
                                if stats is not None:
                                    stats["clips"] = stats.get("clips", 0) + 1
                                v = 0.0
                            image[(r + q, col)] = v
                if keep and save_point(plan, e, i, kind, k if kind == "pump" else None):
                    saved = snap()
        if roe["between"]:
            restore(None)
        saved = snap()
        if stats is not None:
            stats["not_enough"] = stats.get("not_enough", 0) + sum(
                g.not_enough_events for ph in traps for g in ph
            )
            stats["levels"] = max(
                [stats.get("levels", 0)] + [len(g.slabs) for ph in traps for g in ph]
            )
    return np.array([[image[(r, c)] for c in range(shape[1])] for r in range(shape[0])])


def save_point(plan, e, i, kind, k):
    """Is this where the trap state must be remembered for the next pass?"""
    if kind == "pump":
        return e % k < k - 1
    # Standard: the pixel just before the first one the next pass changes
    if e == len(plan) - 1:
        return False
    nxt = plan[e + 1]
    begin = next((j for j in range(len(nxt) - 1) if nxt[j + 1] > 0), len(nxt) - 2)
    return i == max(begin, 0)
