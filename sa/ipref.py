"""Reference closed forms of the integral (sum) of a product of two or three densities of one family."""

HEAD2 = '''
def ref(a, b):
'''
HEAD3 = '''
def ref(a, b, c):
'''


def par(who, attr, n, k=False):
    i = "abc".index(who)
    pos = " ".join("c" if j == i else "1" for j in range(n))
    kk = " k" if k else ""
    return f"rearrange({who}.{attr}, 'f c r{kk} -> f {pos} r{kk}')"


def decl(attrs, n, k=False):
    """lines binding x1, x2(, x3) to the broadcast parameter of each circuit"""
    out = []
    for v, attr in attrs.items():
        at = attr if isinstance(attr, tuple) else (attr,) * n
        for i in range(n):
            out.append(f"    {v}{i + 1} = {par('abc'[i], at[i], n, k)}")
    return "\n".join(out) + "\n"


def src(n, attrs, body, k=False):
    return (HEAD2 if n == 2 else HEAD3) + decl(attrs, n, k) + "\n".join("    " + x for x in body.strip().splitlines()) + "\n"


KS = {2: "ks = rearrange(torch.arange(0, 1 + int(torch.max({m}).item())), 'k -> k 1 1 1 1')\n", 3: "ks = rearrange(torch.arange(0, 1 + int(torch.max({m}).item())), 'k -> k 1 1 1 1 1')\n"}


def up(v, n):
    return f"rearrange({v}, 'f {'i j' if n == 2 else 'i j k'} r -> 1 f {'i j' if n == 2 else 'i j k'} r')"


def binom(n):
    ms = "n1"
    for i in range(2, n + 1):
        ms = f"torch.maximum({ms}, n{i})"
    b = KS[n].format(m=ms) + "s = 0.0\nm = 1.0\n"
    for i in range(1, n + 1):
        N, P = up(f"n{i}", n), up(f"p{i}", n)
        b += f"N{i} = {N}\nP{i} = {P}\n"
        b += f"s = s + torch.lgamma(N{i} + 1.0) - torch.lgamma(ks + 1.0) - torch.lgamma(N{i} - ks + 1.0) + ks * torch.log(P{i}) + (N{i} - ks) * torch.log(1.0 - P{i})\n"
    m = " & ".join(f"(ks <= N{i})" for i in range(1, n + 1))
    return b + f"return torch.sum(torch.exp(torch.where({m}, s, torch.full_like(s, float('-inf')))), dim=0)"


def hyper(n, which):
    ms = "torch.minimum(n1, K1)"
    for i in range(2, n + 1):
        ms = f"torch.minimum({ms}, torch.minimum(n{i}, K{i}))"
    b = KS[n].format(m=ms) + "s = 0.0\n"
    N = up(which, n)
    b += f"N = {N}\n"
    lc = lambda x, y: f"torch.lgamma({x} + 1.0) - torch.lgamma({y} + 1.0) - torch.lgamma({x} - {y} + 1.0)"
    m = []
    for i in range(1, n + 1):
        b += f"K_{i} = {up(f'K{i}', n)}\nn_{i} = {up(f'n{i}', n)}\n"
        b += f"s = s + {lc(f'K_{i}', 'ks')} + {lc(f'(N - K_{i})', f'(n_{i} - ks)')} - ({lc('N', f'n_{i}')})\n"
        m += [f"(ks >= torch.maximum(torch.zeros_like(N), n_{i} + K_{i} - N))", f"(ks <= torch.minimum(n_{i}, K_{i}))"]
    return b + f"return torch.sum(torch.exp(torch.where({' & '.join(m)}, s, torch.full_like(s, float('-inf')))), dim=0)"


def negbin(n):
    """log of the k-th term"""
    b = "kk = torch.tensor(float(kstep))\ns = 0.0\n"
    for i in range(1, n + 1):
        b += f"s = s + torch.lgamma(kk + r{i}) - torch.lgamma(r{i}) - torch.lgamma(kk + 1.0) + kk * torch.log(p{i}) + r{i} * torch.log(1.0 - p{i})\n"
    return b + "return s"


def gauss3():
    return """
t1 = 1 / s1**2
t2 = 1 / s2**2
t3 = 1 / s3**2
T = t1 + t2 + t3
m = t1 * mu1 + t2 * mu2 + t3 * mu3
return torch.exp(-0.5 * (t1 * mu1**2 + t2 * mu2**2 + t3 * mu3**2 - m**2 / T)) / (2 * torch.pi) / (s1 * s2 * s3) / torch.sqrt(T)
"""


def hist(n):
    b = ""
    ws = []
    for i, w in zip(range(1, n + 1), "abc"):
        b += f"e{i} = {w}.bin_edges\n"
    b += "u = torch.unique(torch.cat([" + ", ".join(f"e{i}" for i in range(1, n + 1)) + "]))\nu, _ = torch.sort(u)\nmid = (u[:-1] + u[1:]) / 2.0\nln = (u[1:] - u[:-1]).clamp_min(0.0)\nmask = (mid >= e1[0])\n"
    pos = {1: "f c 1 r s", 2: "f 1 c r s"} if n == 2 else {1: "f c 1 1 r s", 2: "f 1 c 1 r s", 3: "f 1 1 c r s"}
    return b, pos


MU = {"mu": "loc", "s": "scale"}
REF2 = {
    "Normal": src(2, MU, "v = s1**2 + s2**2\nreturn torch.exp(-(mu1 - mu2)**2 / (2 * v)) / torch.sqrt(2 * torch.pi * v)"),
    "Bernoulli": src(2, {"p": "probs"}, "return p1 * p2 + (1 - p1) * (1 - p2)"),
    "Categorical": src(2, {"p": "probs"}, "return torch.sum(p1 * p2, dim=-1)", k=True),
    "SignedCategorical": src(2, {"p": "weights"}, "return torch.sum(p1 * p2, dim=-1)", k=True),
    "Exponential": src(2, {"r": "rate"}, "return r1 * r2 / (r1 + r2)"),
    "Laplace": src(2, {"mu": "loc", "b": "scale"}, """
d = torch.abs(mu1 - mu2)
x = torch.exp(-d / b1)
y = torch.exp(-d / b2)
same = torch.exp(-d / b1) * d / (4 * b1**2) + (x + y) / (4 * (b1 + b2))
return torch.where(torch.isclose(b1, b2), same, (x + y) / (4 * (b1 + b2)) + (x - y) / (4 * (b1 - b2)))"""),
    "LogNormal": src(2, MU, """
t1 = 1 / s1**2
t2 = 1 / s2**2
D = t1 * mu1 + t2 * mu2 - 1
return torch.exp(-0.5 * (t1 * mu1**2 + t2 * mu2**2) + D**2 / (2 * (t1 + t2))) / torch.sqrt(2 * torch.pi * (s1**2 + s2**2))"""),
    "Poisson": src(2, {"l": "rate"}, "return torch.exp(-l1 - l2) * torch.i0(2 * torch.sqrt(l1 * l2))"),
    "Gamma": src(2, {"a": "concentration", "b": "rate"}, "return torch.exp(a1 * torch.log(b1) + a2 * torch.log(b2) + torch.lgamma(a1 + a2 - 1) - torch.lgamma(a1) - torch.lgamma(a2) - (a1 + a2 - 1) * torch.log(b1 + b2))"),
    "Uniform": src(2, {"l": "low", "h": "high"}, "return (torch.minimum(h1, h2) - torch.maximum(l1, l2)).clamp_min(0.0) / ((h1 - l1) * (h2 - l2))"),
    "Geometric": src(2, {"p": "probs"}, "return p1 * p2 / (1 - (1 - p1) * (1 - p2))"),
    "Binomial": src(2, {"n": "total_count", "p": "probs"}, binom(2)),
    "Hypergeometric": src(2, {"K": "K", "N": "N", "n": "n"}, hyper(2, "N1")),
    "NegativeBinomial": src(2, {"r": "total_count", "p": "probs"}, negbin(2)).replace("(a, b)", "(a, b, kstep)"),
}
MIXED2 = {("SignedCategorical", "Categorical"): src(2, {"p": ("weights", "probs")}, "return torch.sum(p1 * p2, dim=-1)", k=True),
          ("Categorical", "SignedCategorical"): src(2, {"p": ("probs", "weights")}, "return torch.sum(p1 * p2, dim=-1)", k=True)}
REF3 = {
    "Normal": src(3, MU, gauss3()),
    "Bernoulli": src(3, {"p": "probs"}, "return p1 * p2 * p3 + (1 - p1) * (1 - p2) * (1 - p3)"),
    "Uniform": src(3, {"l": "low", "h": "high"}, "return (torch.minimum(torch.minimum(h1, h2), h3) - torch.maximum(torch.maximum(l1, l2), l3)).clamp_min(0.0) / ((h1 - l1) * (h2 - l2) * (h3 - l3))"),
    "Geometric": src(3, {"p": "probs"}, "return p1 * p2 * p3 / (1 - (1 - p1) * (1 - p2) * (1 - p3))"),
    "Binomial": src(3, {"n": "total_count", "p": "probs"}, binom(3)),
    "Hypergeometric": src(3, {"K": "K", "N": "N", "n": "n"}, hyper(3, "N1")),
    "NegativeBinomial": src(3, {"r": "total_count", "p": "probs"}, negbin(3)).replace("(a, b, c)", "(a, b, c, kstep)"),
}


def cat3(kinds):
    return src(3, {"p": tuple("weights" if k == "SignedCategorical" else "probs" for k in kinds)}, "return torch.sum(p1 * p2 * p3, dim=-1)", k=True)

HIST = """
def ref(a, b):
    e1 = a.bin_edges.to(dtype=torch.float64)
    e2 = b.bin_edges.to(dtype=torch.float64)
    u = torch.unique(torch.cat([e1, e2]))
    lo, hi = u[:-1], u[1:]
    mids = (lo + hi) / 2.0
    w1 = e1[1:] - e1[:-1]
    w2 = e2[1:] - e2[:-1]
    d1 = rearrange(a.probs / rearrange(w1, "k -> 1 1 1 k"), "f ci r b1 -> f ci 1 r b1")
    d2 = rearrange(b.probs / rearrange(w2, "k -> 1 1 1 k"), "f co r b2 -> f 1 co r b2")
    i1 = (torch.bucketize(mids, e1, right=True) - 1).clamp(0, w1.numel() - 1)
    i2 = (torch.bucketize(mids, e2, right=True) - 1).clamp(0, w2.numel() - 1)
    mask = (mids >= e1[0]) & (mids < e1[-1]) & (mids >= e2[0]) & (mids < e2[-1])
    prod = d1.index_select(-1, i1) * d2.index_select(-1, i2)
    return torch.sum(prod * rearrange((hi - lo) * mask, "s -> 1 1 1 1 s"), dim=-1)
"""
