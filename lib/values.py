"""Field elements worth trying: the borders of machine words matter to code which looks at a part of a number only."""
R = 21888242871839275222246405745257275088548364400416034343698204186575808495617

def limbs(rng, m=R):
    """a few words, mostly empty ones"""
    k = rng.choice([8, 16, 31, 32, 32, 33, 53, 62, 63, 64, 64, 64, 65, 96, 127, 128, 128, 192, 192, 253])
    a = rng.choice([1, 1, 2, 3, 5, rng.randrange(1, 100), rng.getrandbits(32) | 1])
    b = rng.choice([0, 0, 1, 1, -1, 2, 3, rng.randrange(1000), rng.getrandbits(31)])
    v = (a << k) + b
    if rng.random() < .15: v += rng.randrange(1, 9) << (k + rng.choice([1, 32, 64]))
    if rng.random() < .15: v = -v
    return v % m

def twin(rng, v, m=R):
    """an element which agrees with v in its low (or high) words"""
    k = rng.choice([8, 32, 64, 64, 64, 128, 192])
    if rng.random() < .8: w = (v + (rng.choice([1, 1, 2, 7, rng.getrandbits(16) | 1]) << k)) % m
    else: w = (v >> k << k) + rng.getrandbits(k)
    return w % m
