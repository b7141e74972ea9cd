#!/usr/bin/env python3
"""Monitor for the parameter script (C23): runs the repository's .sage file for many primes and widths and judges
everything it emits against an independent computation.

usage: params.py REPO quick|thorough SEED OUT.json     exit 0 held, 1 violation, 2 no verdict
"""
import json, math, multiprocessing, os, random, re, signal, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sagelike as sg

BLS = 52435875175126190479447740508185965837690552500527637822603658699938581184513
BN = 21888242871839275222246405745257275088548364400416034343698204186575808495617
PALLAS = 28948022309329048855892746252171976963363056481941560715954676764349967630337
VESTA = 28948022309329048855892746252171976963363056481941647379679742748393362948097
GOLD = 18446744069414584321
BABY = 2013265921
# the named instances: prime, width, degree, full and partial rounds
NAMED = [(BABY, 16, 7, 8, 13), (BABY, 24, 7, 8, 21), (GOLD, 8, 7, 8, 22), (GOLD, 12, 7, 8, 22), (GOLD, 16, 7, 8, 22),
         (GOLD, 20, 7, 8, 22), (BLS, 2, 5, 8, 56), (BLS, 3, 5, 8, 56), (BLS, 4, 5, 8, 56), (BLS, 8, 5, 8, 57),
         (BN, 3, 5, 8, 56), (PALLAS, 3, 5, 8, 56), (PALLAS, 4, 5, 8, 56), (PALLAS, 8, 5, 8, 57), (VESTA, 3, 5, 8, 56)]
WIDTHS = [2, 3, 4, 8, 12, 16, 20, 24]


# ------------------------------------------------------------------ the independent computation
def grain(n, t, rf, rp):
    s = []
    for v, w in ((1, 2), (0, 4), (n, 12), (t, 12), (rf, 10), (rp, 10), (2 ** 30 - 1, 30)):
        s += [v >> i & 1 for i in reversed(range(w))]
    reg = sum(b << i for i, b in enumerate(s))  # bit i of reg = s[i]

    def step():
        nonlocal reg
        b = (reg >> 62 ^ reg >> 51 ^ reg >> 38 ^ reg >> 23 ^ reg >> 13 ^ reg) & 1
        reg = reg >> 1 | b << 79
        return b
    for _ in range(160):
        step()

    def word():
        r, k = 0, 0
        while k < n:
            a, b = step(), step()
            if a:
                r, k = r << 1 | b, k + 1
        return r
    return word


def degree(p):
    return next(a for a in range(3, p) if math.gcd(a, p - 1) == 1)


def external(t):
    m4 = [[5, 7, 1, 3], [4, 6, 1, 1], [1, 3, 5, 7], [1, 1, 4, 6]]
    if t in (2, 3):
        return [[2 if i == j else 1 for j in range(t)] for i in range(t)]
    if t == 4:
        return m4
    return [[m4[i % 4][j % 4] * (2 if i // 4 == j // 4 else 1) for j in range(t)] for i in range(t)]


def internal(diag):
    return [[x if i == j else 1 for j in range(len(diag))] for i, x in enumerate(diag)]


def irreducible(m, p):
    """Is the characteristic polynomial of m irreducible? (No invariant subspace at all.)"""
    f = sg.minpoly(m, p)
    return len(f) == len(m) + 1 and sg.Poly(sg.GF(p), f).is_irreducible()


def mul(a, b, p):
    return [[sum(x * y for x, y in zip(r, c)) % p for c in zip(*b)] for r in a]


def expected(p, t, rf, rp):
    word = grain(p.bit_length(), t, rf, rp)

    def below():
        while True:
            x = word()
            if x < p:
                return x
    rc = [[below() if (r < rf // 2 or r >= rf // 2 + rp or c == 0) else 0 for c in range(t)] for r in range(rf + rp)]
    if t == 2:
        diag = [2, 3]
    elif t == 3:
        diag = [2, 2, 3]
    else:
        while True:
            diag = [word() % p for _ in range(t)]
            m = internal(diag)
            q, ok = m, True
            for _ in range(2 * t):
                if not irreducible(q, p):
                    ok = False
                    break
                q = mul(m, q, p)
            if ok:
                break
    return rc, [x % p for x in diag]


def permute(p, t, d, rf, rp, diag, rc):
    me, mi = external(t), internal(diag)

    def lin(m, s):
        return [sum(a * b for a, b in zip(r, s)) % p for r in m]
    s = lin(me, list(range(t)))
    for r in range(rf + rp):
        s = [(a + b) % p for a, b in zip(s, rc[r])]
        if rf // 2 <= r < rf // 2 + rp:
            s[0] = pow(s[0], d, p)
            s = lin(mi, s)
        else:
            s = [pow(a, d, p) for a in s]
            s = lin(me, s)
    return s


def secure(p, t, d, rf, rp, m=128):
    """The published inequalities for rounds before the margin; a little slack against rounding."""
    n, eps = p.bit_length(), 1e-6
    l2p, lb = math.log(p, 2), math.log(2, d)
    need = [6 if m <= math.floor(l2p - (d - 1) / 2.0) * (t + 1) else 10,
            math.ceil(1 + math.ceil(lb * min(m, n)) + math.ceil(math.log(t, d)) - rp - eps),
            math.ceil(lb * min(m, l2p) - rp - eps),
            math.ceil(t - 1 + lb * min(m / (t + 1), l2p / 2) - rp - eps),
            math.ceil((t - 2 + m / (2 * math.log(d, 2)) - rp) / (t - 1) - eps)]
    r = t // 3
    over, under = (rf - 1) * t + rp + r + r * rf // 2 + rp + d, r * rf // 2 + rp + d
    g = 2 * (math.lgamma(over + 1) - math.lgamma(under + 1) - math.lgamma(over - under + 1)) / math.log(2)
    return rf >= max(need) and math.ceil(g + eps) >= m


# ------------------------------------------------------------------ judging one run
class Violation(Exception):
    pass


class Slow(BaseException):
    """Far longer than any run takes: it does not end."""


def slow(*_):
    raise Slow("no end after %d s" % LIMIT)


LIMIT = 400


def numbers(text):
    return [int(x, 16) for x in re.findall(r'from_hex\("(0x[0-9a-fA-F]+)"\)', text)]


def section(out, name):
    m = re.search(r"pub static ref %s:.*?=\s*vec!\[(.*?)\n\];" % re.escape(name), out, re.S)
    if not m:
        raise Violation("the table %s is not emitted" % name)
    return numbers(m.group(1))


def hexes(out, p):
    """Every number is written with the full, even number of digits."""
    w = len("%x" % (p - 1))
    w += w % 2
    k = 0
    for x in re.findall(r'from_hex\("([^"]*)"\)', out):
        if not re.fullmatch("0x[0-9a-f]{%d}" % w, x):
            raise Violation("a number is not emitted as 0x and %d digits: %r" % (w, x))
        k += 1
    return k


def judge(out, p, t, named):
    d = degree(p)
    m = re.search(r"R_F\s*=\s*(\d+)\D+R_P\s*=\s*(\d+)", out)
    c = re.search(r"PoseidonParams::new\((\d+), (\d+), (\d+), (\d+), &(\w+), &(\w+)\)", out)
    if not m or not c:
        raise Violation("round numbers or instance line are not emitted: %r" % out[:300])
    rf, rp = int(m.group(1)), int(m.group(2))
    if tuple(map(int, c.groups()[:4])) != (t, d, rf, rp):
        raise Violation("the instance line says (t, d, rounds) = %s, expected %s" % (c.groups()[:4], (t, d, rf, rp)))
    if (c.group(5), c.group(6)) != ("MAT_DIAG%d_M_1" % t, "RC%d" % t):
        raise Violation("the instance line names the tables %s" % (c.groups()[4:],))
    seen = [("rounds", (p, t, rf, rp))]
    if named:
        if (d, rf, rp) != named:
            raise Violation("degree and rounds %s, published %s" % ((d, rf, rp), named))
    else:
        pre = [q for q in range(1, rp + 1) if math.ceil(q * 1.075) == rp]
        if rf % 2 or not any(secure(p, t, d, rf - 2, q) for q in pre):
            raise Violation("the emitted rounds (%d, %d) do not satisfy the security inequalities with the margin" % (rf, rp))
    if rf % 2:
        raise Violation("odd number of full rounds %d" % rf)
    k = hexes(out, p)
    rc, diag = expected(p, t, rf, rp)
    for name, want in (("MAT_DIAG%d_M_1" % t, [(x - 1) % p for x in diag]),
                       ("MAT_INTERNAL%d" % t, [x for r in internal(diag) for x in r]),
                       ("RC%d" % t, [x for r in rc for x in r])):
        got = section(out, name)
        if got != want:
            i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            raise Violation("%s: entry %d of %d is %s, expected %s of %d" % (name, i, len(got), got[i:i + 1], want[i:i + 1], len(want)))
        seen += [(name, i, x) for i, x in enumerate(got)]
    tail = numbers(out[out.rindex("PoseidonParams::new("):])
    want = list(range(t)) + permute(p, t, d, rf, rp, diag, rc)
    if tail != want:
        raise Violation("the reference input and output are %s, expected %s" % (tail, want))
    seen += [("reference", i, x) for i, x in enumerate(tail)]
    if k != t + t * t + t * (rf + rp) + 2 * t:
        raise Violation("%d numbers emitted" % k)
    return seen, (rf, rp)


def worker(job):
    path, p, t, named, default = job
    signal.signal(signal.SIGALRM, slow)
    signal.alarm(LIMIT)
    t0 = time.time()
    try:
        if t not in WIDTHS and t % 4:
            out, found = sg.run(path, {"p": p, "t": t})
            if found != {"p", "t"}:
                return job, "skip", "the script has no plain settings p and t", 0, time.time() - t0
            if "PoseidonParams::new(" in out or "pub static ref RC" in out:
                raise Violation("a parameter set is emitted for an unsupported width")
            return job, "refused", None, 0, time.time() - t0
        out, found = sg.run(path, {} if default else {"p": p, "t": t})
        if not default and found != {"p", "t"}:
            return job, "skip", "the script has no plain settings p and t", 0, time.time() - t0
        ran = time.time() - t0
        seen, rounds = judge(out, p, t, named)
        return job, "held", (rounds, seen), ran, time.time() - t0
    except Violation as e:
        return job, "violation", str(e), 0, time.time() - t0
    except sg.Missing as e:
        return job, "unable", "not provided by the stand-in: %s" % e, 0, time.time() - t0
    except (AssertionError, ArithmeticError, IndexError, KeyError, ValueError, RecursionError, Slow):
        return job, "violation", "the script stops: %s" % traceback.format_exc(limit=-2), 0, time.time() - t0
    except Exception as e:
        return job, "unable", traceback.format_exc(limit=-3), 0, time.time() - t0
    finally:
        signal.alarm(0)


def main():
    repo, tier, seed, dest = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
    path = os.path.join(repo, "poseidon2_rust_params.sage")
    rng = random.Random(seed)
    jobs = [(path, p, t, (d, rf, rp), False) for p, t, d, rf, rp in NAMED]
    jobs.append((path, BLS, 3, (5, 8, 56), True))
    # widths the library does not name, and other primes
    others = [(p, t) for p in (BABY, GOLD, BLS, BN, PALLAS, VESTA) for t in WIDTHS if not any(p == q and t == u for q, u, *_ in NAMED)]
    rng.shuffle(others)
    small = [o for o in others if o[1] <= 8]
    if tier == "quick":
        others = small[:6] + [o for o in others if o[1] > 8][:2]
    smooth = 2 * 3 * 5 * 7 * 11 * 13
    k = 2 ** 200 // smooth
    while not sg.is_prime(k * smooth + 1):
        k += 1
    # odd number of digits, next to powers of two, large degree, degree 3
    fixed = [int(sg.next_prime(2 ** 251)), int(sg.next_prime(2 ** 254)), k * smooth + 1, 2 ** 127 - 1, 2 ** 61 - 1, 2 ** 255 - 19,
             int(next(q for q in range(2 ** 64 - 1, 0, -2) if q % 3 == 2 and sg.is_prime(q))), 2 ** 31 - 1, 2 ** 33 - 9]
    others += [(q, rng.choice([2, 3, 4, 8])) for q in fixed]
    for i in range(4 if tier == "quick" else 60):
        bits = rng.choice([31, 32, 61, 64, 127, 128, 192, 251, 252, 253, 254, 255, 256])
        q = sg.next_prime(rng.randrange(2 ** (bits - 1), 2 ** bits - 2 ** (bits - 8)))
        others.append((int(q), rng.choice([2, 3, 4, 8] if tier == "quick" else WIDTHS)))
    others += [(p, t) for p in (BABY, BLS) for t in ((5, 6) if tier == "quick" else (5, 6, 7, 9, 10, 11, 13, 14, 15, 22, 23))]
    jobs += [(path, p, t, None, False) for p, t in others]
    jobs.sort(key=lambda j: -j[2])
    ev = {"evaluations": 0, "distinct": 0, "counters": {}, "samples": [], "skipped": [], "violation": None, "unable": None}
    distinct = set()
    with multiprocessing.Pool(8) as pool:
        for job, what, info, ran, took in pool.imap_unordered(worker, jobs):
            label = "p = %d, t = %d%s" % (job[1], job[2], " (as it stands)" if job[4] else "")
            ev["counters"][what] = ev["counters"].get(what, 0) + 1
            if what == "held":
                (rf, rp), seen = info
                ev["evaluations"] += len(seen)
                distinct.update(hash((job[1], job[2]) + s) for s in seen)
                ev["counters"]["sets for named instances" if job[3] else "sets for other primes and widths"] = ev["counters"].get("sets for named instances" if job[3] else "sets for other primes and widths", 0) + 1
                ev["counters"]["emitted numbers"] = ev["counters"].get("emitted numbers", 0) + len(seen) - 1
                ev["samples"].append("%s: rounds %d + %d, %d numbers emitted, script ran %.1f s" % (label, rf, rp, len(seen) - 1, ran))
            elif what == "violation" and not ev["violation"]:
                ev["violation"] = "%s: %s" % (label, info)
                pool.terminate()
                break
            elif what == "unable" and not ev["unable"]:
                ev["unable"] = "%s: %s" % (label, info)
            elif what == "refused":
                ev["evaluations"] += 1
                distinct.add(hash(label))
            elif what == "skip":
                ev["skipped"].append(label)
    ev["distinct"] = len(distinct)
    ev["samples"] = ev["samples"][:8]
    json.dump(ev, open(dest, "w"), indent=1)
    sys.exit(1 if ev["violation"] else 2 if ev["unable"] else 0)


if __name__ == "__main__":
    main()
