"""C08: block partitions."""
from pyvc.harness import harness


@harness(functions=["aspsim.utilities:calc_block_sizes"], fuzz=600)
def calc_block_sizes(V):
    bs = V.int("bs", 1)
    start = V.int("start", 0, bs - 1)
    n = V.int("n", 0)
    V.inv(elem=[("0<e<=bs", lambda i, e, pre: V.and_(e > 0, e <= bs)),
                ("aligned", lambda i, e, pre: V.or_(i == 0, (start + pre) % bs == 0))],
          num=[("0<x<=bs", lambda x, x0, k: V.and_(x > 0, x <= bs))],
          lst=[("next is aligned", lambda l, k: V.or_(l.n == 0, l.total() >= n, (start + l.total()) % bs == 0))])
    V.invx(lambda l, x: V.or_(l.total() >= n, V.and_(l.n == 0, x == bs - start), V.and_(l.n > 0, x == bs)))
    r = V.mod("aspsim.utilities").calc_block_sizes(n, start, bs)
    V.ensure(V.total(r) == n, "block lengths sum to the number of samples")
    V.forall(V.len(r), lambda i: V.and_(V.item(r, i) > 0, V.item(r, i) <= bs), "0 < block length <= block size")
    V.forall(V.len(r), lambda i: V.or_(i == 0, (start + V.prefix(r, i)) % bs == 0), "interior boundaries are multiples of the block size")


@harness(functions=["aspsim.utilities:calc_block_sizes"], fuzz=30)
def calc_block_sizes_empty(V):
    bs = V.int("bs", 1)
    start = V.int("start", 0, bs - 1)
    r = V.mod("aspsim.utilities").calc_block_sizes(0, start, bs)
    V.ensure(V.len(r) == 0, "no blocks for no samples")


@harness(functions=["aspsim.processor:calc_block_sizes_with_buffer"], fuzz=600)
def calc_block_sizes_with_buffer(V):
    chunk = V.int("chunk", 1)
    buf = V.int("buffer", 0)
    idx = V.int("idx", 0, chunk + buf - 1)
    n = V.int("n", 0)
    left = chunk + buf - idx
    V.inv(elem=[("0<e", lambda i, e, pre: e > 0),
                ("aligned", lambda i, e, pre: V.or_(i == 0, V.and_(e <= chunk, (pre - left) % chunk == 0))),
                ("first", lambda i, e, pre: V.or_(i != 0, e <= left))],
          num=[("0<x", lambda x, x0, k: V.and_(x > 0, V.or_(x <= chunk, x <= left)))],
          lst=[("next is aligned", lambda l, k: V.or_(l.n == 0, l.total() >= n, (l.total() - left) % chunk == 0))])
    V.invx(lambda l, x: V.or_(l.total() >= n, V.and_(l.n == 0, x == left), V.and_(l.n > 0, x == chunk)))
    r = V.mod("aspsim.processor").calc_block_sizes_with_buffer(n, idx, buf, chunk)
    V.ensure(V.total(r) == n, "block lengths sum to the number of samples")
    V.forall(V.len(r), lambda i: V.item(r, i) > 0, "block length > 0")
    V.forall(V.len(r), lambda i: V.implies(i == 0, V.item(r, i) <= left), "first block ends within the buffer")
    V.forall(V.len(r), lambda i: V.or_(i == 0, (V.prefix(r, i) - left) % chunk == 0), "later blocks start at the beginning of a chunk")
    V.forall(V.len(r), lambda i: V.or_(i == 0, V.item(r, i) <= chunk), "later blocks end within the buffer")


@harness(functions=["aspsim.processor:find_first_index_for_block"], fuzz=300)
def find_first_index(V):
    s = V.int("start", 0)
    n = V.int("n", 0)
    bs = V.int("bs", 1)
    e = s + n
    r = V.mod("aspsim.processor").find_first_index_for_block(s, e, bs)
    V.ensure(V.and_(r >= s, r <= e), "start index lies in the range")
    V.ensure((e - r) % bs == 0, "a whole number of blocks is left")
    V.ensure(r - s < bs, "no further block would fit before the start index")


@harness(functions=["aspsim.processor:block_process_until_index"], fuzz=300)
def block_process_until_index(V):
    s = V.int("start", 0)
    n = V.int("n", 0)
    bs = V.int("bs", 1)
    e = s + n
    nb = n // bs
    g = V.mod("aspsim.processor").block_process_until_index(s, e, bs)
    V.forall_yields(g, lambda k, v: V.and_(v[1] - v[0] == bs, v[1] == e - (nb - 1 - k) * bs, v[0] >= s),
                    nb, "consecutive blocks ending at the given index")


ASSUMPTIONS = [
    "calc_block_sizes is used with 0 <= start index < block size (the position within the current block); other start indices are outside the contract",
    "calc_block_sizes_with_buffer is used with 0 <= index < chunk size + buffer size",
]
