"""A source of recorded random choices: generators draw from it, and shrinking edits the recorded sequence and regenerates,
so every shrunk case is one the generator can produce."""
import random, time


class Stop(Exception):
    pass


class R:
    """Every draw is an integer in [0, n); smaller means simpler. A prefix of choices may be given (replay while shrinking)."""

    def __init__(self, seed=None, prefix=None, limit=20000):
        self.rng = random.Random(seed) if prefix is None else None
        self.prefix = prefix
        self.rec = []
        self.limit = limit

    def draw(self, n):
        i = len(self.rec)
        if i >= self.limit:
            raise Stop()
        if self.rng is not None:
            v = self.rng.randrange(n)
        else:
            v = min(self.prefix[i], n - 1) if i < len(self.prefix) else 0
        self.rec.append(v)
        return v

    def int(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def weighted(self, pairs):
        """pairs of (weight, value); the first is the simplest"""
        n = self.draw(sum(w for w, _ in pairs))
        for w, v in pairs:
            if n < w:
                return v
            n -= w

    def chance(self, pct):
        """true in pct of 100; false is the simpler value"""
        return self.draw(100) >= 100 - pct

    def list(self, lo, hi, f):
        """lo..hi elements, uniformly distributed in length; each element is preceded by its own 'go on' choice, so one can be deleted"""
        out = []
        want = None
        if self.rng is not None:
            want = self.rng.randrange(lo, hi + 1)
        while len(out) < hi:
            if len(out) >= lo:
                i = len(self.rec)
                if i >= self.limit:
                    raise Stop()
                if want is not None:
                    v = 1 if len(out) < want else 0
                else:
                    v = min(self.prefix[i], 1) if i < len(self.prefix) else 0
                self.rec.append(v)
                if not v:
                    break
            out.append(f())
        return out

    def text(self, chars, lo, hi):
        return ''.join(self.list(lo, hi, lambda: self.pick(chars)))

    def sample(self, seq, k):
        s = list(seq)
        out = []
        for _ in range(min(k, len(s))):
            out.append(s.pop(self.draw(len(s))))
        return out

    def shuffle(self, seq):
        return self.sample(seq, len(seq))


def shrink(gen, rec, fails, seconds=45, tries=4000):
    """Smallest recorded sequence found for which fails(case) is still true. Returns (case, rec)."""
    end = time.time() + seconds
    best = list(rec)
    bestcase = None
    n = [0]
    seen = set()

    def attempt(seq):
        nonlocal best, bestcase
        if time.time() > end or n[0] > tries:
            return False
        r = R(prefix=seq)
        try:
            case = gen(r)
        except Stop:
            return False
        key = tuple(r.rec)
        if key in seen or (len(key), key) >= (len(best), tuple(best)):
            return False
        seen.add(key)
        n[0] += 1
        if fails(case):
            best, bestcase = list(key), case
            return True
        return False

    improved = True
    while improved and time.time() < end and n[0] <= tries:
        improved = False
        k = max(1, len(best) // 4)
        while k >= 1:
            i = len(best) - k
            while i >= 0:
                if attempt(best[:i] + best[i + k:]):
                    improved = True
                    i = min(i, len(best)) - k
                else:
                    # deleting an element also needs its 'go on' choice lowered
                    i -= max(1, k // 2)
            k //= 2
        k = max(1, len(best) // 8)
        while k >= 1:
            for i in range(0, len(best), k):
                if any(best[i:i + k]) and attempt(best[:i] + [0] * len(best[i:i + k]) + best[i + k:]):
                    improved = True
            k //= 2
        i = 0
        while i < len(best):
            lo, hi = 0, best[i] if i < len(best) else 0
            while lo < hi and time.time() < end:
                mid = (lo + hi) // 2
                if attempt(best[:i] + [mid] + best[i + 1:]):
                    improved = True
                    hi = best[i] if i < len(best) else 0
                else:
                    lo = mid + 1
            i += 1
    return bestcase, best
