"""Canonical names and signatures of library operations (torch / numpy / einops / math).

`torch.logsumexp(x, 1)`, `x.logsumexp(dim=1)` and `torch.logsumexp(x, dim=1)` become the same term.
"""
import ast

# op -> ordered parameter names, first `n_in` of which stay positional
SIG = {
    "logsumexp": ["input", "dim", "keepdim"],
    "softmax": ["input", "dim", "dtype"],
    "log_softmax": ["input", "dim", "dtype"],
    "sum": ["input", "dim", "keepdim", "dtype"],
    "nansum": ["input", "dim", "keepdim"],
    "mean": ["input", "dim", "keepdim"],
    "nanmean": ["input", "dim", "keepdim"],
    "prod": ["input", "dim", "keepdim"],
    "var": ["input", "dim", "correction"],
    "std": ["input", "dim", "correction"],
    "max": ["input", "dim", "keepdim"],
    "min": ["input", "dim", "keepdim"],
    "amax": ["input", "dim", "keepdim"],
    "amin": ["input", "dim", "keepdim"],
    "median": ["input", "dim", "keepdim"],
    "any": ["input", "dim", "keepdim"],
    "all": ["input", "dim", "keepdim"],
    "argmax": ["input", "dim", "keepdim"],
    "argmin": ["input", "dim", "keepdim"],
    "cumsum": ["input", "dim"],
    "cumprod": ["input", "dim"],
    "logcumsumexp": ["input", "dim"],
    "sort": ["input", "dim", "descending"],
    "argsort": ["input", "dim", "descending"],
    "topk": ["input", "k", "dim", "largest", "sorted"],
    "cat": ["tensors", "dim"],
    "stack": ["tensors", "dim"],
    "concatenate": ["tensors", "dim"],
    "gather": ["input", "dim", "index"],
    "take_along_dim": ["input", "index", "dim"],
    "index_select": ["input", "dim", "index"],
    "scatter": ["input", "dim", "index", "src"],
    "scatter_": ["input", "dim", "index", "src"],
    "scatter_add_": ["input", "dim", "index", "src"],
    "scatter_add": ["input", "dim", "index", "src"],
    "index_add_": ["input", "dim", "index", "src"],
    "unsqueeze": ["input", "dim"],
    "squeeze": ["input", "dim"],
    "flatten": ["input", "start_dim", "end_dim"],
    "unflatten": ["input", "dim", "sizes"],
    "select": ["input", "dim", "index"],
    "narrow": ["input", "dim", "start", "length"],
    "transpose": ["input", "dim0", "dim1"],
    "movedim": ["input", "source", "destination"],
    "repeat_interleave": ["input", "repeats", "dim"],
    "chunk": ["input", "chunks", "dim"],
    "split": ["input", "split_size", "dim"],
    "unbind": ["input", "dim"],
    "where": ["cond", "input", "other"],
    "clamp": ["input", "min", "max"],
    "clip": ["input", "min", "max"],
    "masked_fill": ["input", "mask", "value"],
    "masked_fill_": ["input", "mask", "value"],
    "masked_scatter_": ["input", "mask", "source"],
    "masked_select": ["input", "mask"],
    "nan_to_num": ["input", "nan", "posinf", "neginf"],
    "isnan": ["input"], "isfinite": ["input"], "isinf": ["input"],
    "exp": ["input"], "log": ["input"], "log1p": ["input"], "expm1": ["input"], "sqrt": ["input"],
    "sigmoid": ["input"], "logit": ["input"], "softplus": ["input"], "abs": ["input"], "neg": ["input"],
    "sign": ["input"], "square": ["input"], "logaddexp": ["input", "other"], "tanh": ["input"],
    "round": ["input"], "floor": ["input"], "ceil": ["input"], "lgamma": ["input"], "digamma": ["input"],
    "nonzero": ["input"], "diff": ["input"],
    "logical_and": ["input", "other"], "logical_or": ["input", "other"], "logical_not": ["input"],
    "bitwise_and": ["input", "other"], "bitwise_or": ["input", "other"], "bitwise_not": ["input"],
    "add": ["input", "other"], "sub": ["input", "other"], "mul": ["input", "other"], "div": ["input", "other"],
    "pow": ["input", "other"], "maximum": ["input", "other"], "minimum": ["input", "other"],
    "eq": ["input", "other"], "ne": ["input", "other"], "lt": ["input", "other"], "le": ["input", "other"],
    "gt": ["input", "other"], "ge": ["input", "other"], "isin": ["input", "other"], "remainder": ["input", "other"],
    "matmul": ["input", "other"], "bmm": ["input", "other"], "einsum": None,
    "bernoulli": ["input"], "multinomial": ["input", "num_samples", "replacement"],
    "gumbel_softmax": ["input", "tau", "hard", "eps", "dim"],
    "one_hot": ["input", "num_classes"],
    "rearrange": ["input", "pattern"], "repeat_e": ["input", "pattern"], "reduce_e": ["input", "pattern", "reduction"],
    "clone": ["input"], "detach": ["input"], "to": None, "float": ["input"], "double": ["input"], "long": ["input"],
    "int": ["input"], "bool": ["input"], "contiguous": ["input"], "cpu": ["input"], "cuda": ["input"], "numpy": ["input"],
    "item": ["input"], "tolist": ["input"], "requires_grad_": ["input"], "retain_grad": ["input"],
    "expand": None, "expand_as": ["input", "other"], "view": None, "reshape": None, "permute": None, "repeat": None,
    "view_as": ["input", "other"], "reshape_as": ["input", "other"], "broadcast_to": None, "type_as": ["input", "other"],
    "tile": None,
    "numel": ["input"], "dim": ["input"], "size": None, "new_tensor": None, "new_zeros": None, "new_ones": None,
    "new_full": None, "new_empty": None, "T": ["input"],
    "fill_": ["input", "value"], "copy_": ["input", "other"], "zero_": ["input"], "clamp_": ["input", "min", "max"],
    "add_": ["input", "other"], "sub_": ["input", "other"], "mul_": ["input", "other"], "div_": ["input", "other"],
    "exp_": ["input"], "log_": ["input"], "nan_to_num_": ["input"], "squeeze_": ["input", "dim"], "unsqueeze_": ["input", "dim"],
    "normal_": ["input"], "uniform_": ["input"], "random_": ["input"], "bernoulli_": ["input"], "abs_": ["input"], "neg_": ["input"],
    "sqrt_": ["input"], "index_fill_": ["input", "dim", "index", "value"], "index_copy_": ["input", "dim", "index", "src"],
    "index_put_": None, "put_": None, "swapaxes": ["input", "dim0", "dim1"], "flip": ["input", "dim"], "fliplr": ["input"],
    "tril": ["input", "diagonal"], "triu": ["input", "diagonal"], "diagonal": None, "diag": None,
    "unique": None, "bincount": None, "searchsorted": None, "bucketize": None, "cross_entropy": None,
    "unfold": None, "fold": None, "pad": None, "logaddexp2": None, "trapezoid": None, "nanmedian": ["input", "dim", "keepdim"],
    "norm": None, "normalize": None, "dropout": None, "layer_norm": None, "batch_norm": None, "relu": ["input"],
    "lerp": None, "histc": None, "kthvalue": None, "quantile": None, "nanquantile": None, "mode": None, "roll": None,
    "allclose": ["input", "other"], "isclose": ["input", "other"], "equal": ["input", "other"],
    "square_": ["input"], "erf": ["input"], "floor_divide": ["input", "other"], "true_divide": ["input", "other"],
    "subtract": ["input", "other"], "multiply": ["input", "other"], "divide": ["input", "other"], "negative": ["input"],
    "clamp_min": None, "clamp_max": None, "clamp_min_": None, "clamp_max_": None, "reciprocal": ["input"], "rsqrt": ["input"], "xlogy": ["input", "other"],
    "absolute": ["input"], "ravel": ["input"], "mT": ["input"],
}

RENAME = {"concatenate": "cat", "clip": "clamp", "absolute": "abs", "negative": "neg", "subtract": "sub",
          "multiply": "mul", "divide": "div", "true_divide": "div", "logical_and": "and_", "logical_or": "or_",
          "logical_not": "not_", "bitwise_and": "and_", "bitwise_or": "or_", "bitwise_not": "not_", "clip_": "clamp_",
          "take_along_dim": "gather", "arange": "arange", "concat": "cat"}

CREATE = {"zeros", "ones", "full", "empty", "tensor", "as_tensor", "arange", "linspace", "eye", "rand", "randn", "randint",
          "randperm", "zeros_like", "ones_like", "full_like", "empty_like", "rand_like", "randn_like", "randint_like",
          "array", "asarray", "from_numpy", "logspace", "normal", "Generator", "meshgrid", "cartesian_prod",
          "combinations", "broadcast_tensors", "tril_indices", "triu_indices"}

# names that never are tensor methods when called on an unknown receiver
METHOD_AMBIG = {"copy", "pop", "get", "items", "keys", "values", "update", "append", "extend", "index", "count", "insert",
                "remove", "add", "sort", "split", "mode", "max_", "T", "size", "all", "any"}

LIB_PREFIX = ("torch", "numpy", "math", "einops", "scipy")

BINOP = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "div", ast.FloorDiv: "floordiv", ast.Mod: "mod",
         ast.Pow: "pow", ast.MatMult: "matmul", ast.BitAnd: "and_", ast.BitOr: "or_", ast.BitXor: "xor",
         ast.LShift: "shl", ast.RShift: "shr"}
CMPOP = {ast.Eq: "eq", ast.NotEq: "ne", ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge", ast.Is: "is",
         ast.IsNot: "isnot", ast.In: "in", ast.NotIn: "notin"}
KWALIAS = {"axis": "dim", "keepdims": "keepdim", "axes": "dim", "unbiased": "correction", "ddof": "correction"}


def lib_op(dotted: str):
    """canonical op name of a library function, or None"""
    parts = dotted.split(".")
    if parts[0] not in LIB_PREFIX:
        return None
    last = parts[-1]
    if parts[0] == "einops":
        return {"rearrange": "rearrange", "repeat": "repeat_e", "reduce": "reduce_e", "einsum": "einsum"}.get(last)
    if parts[:2] == ["torch", "distributions"] or parts[:2] == ["torch", "optim"]:
        return None
    if last[:1].isupper():
        return None
    if parts[:2] == ["torch", "nn"] and parts[2:3] not in (["functional"], ["utils"], ["init"]):
        return None
    if last in SIG or last in CREATE:
        return RENAME.get(last, last)
    return None
