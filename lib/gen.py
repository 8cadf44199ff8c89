"""Shared Hypothesis strategies (all produce JSON-able values)."""
from hypothesis import strategies as st

C4 = 4 * 1024 * 1024

# deltas around boundaries
small = st.sampled_from([0, 1, 2, 3, 511, 512, 513, 4095, 4096, 4097, 65535, 65536, 65537, 1048576, 2097151, 2097152])
delta = st.one_of(
    st.sampled_from([0, 0, 0, 1, -1, 2, -2, 511, 512, -512, 513, 4096, -4096, 65536, -65536]),
    st.integers(-5000, 5000),
    st.integers(-C4 // 2, C4 // 2),
)
seeds = st.integers(0, 7)
kinds = st.sampled_from([0, 1, 2, 2, 3, 4])


def offset(maxchunk=4):
    """[chunk, delta] -> use off()"""
    return st.tuples(st.integers(0, maxchunk), delta)


def off(o, limit=None):
    n = o[0] * C4 + o[1]
    n = max(0, n)
    if limit is not None:
        n = min(n, limit)
    return n


length = st.one_of(
    st.sampled_from([1, 2, 511, 512, 513, 4096, 65535, 65536, C4 - 1, C4, C4 + 1, 2 * C4, C4 // 2]),
    st.integers(1, 300),
    st.integers(1, 200000),
    st.integers(1, 2 * C4 + 5000),
)


def image_size(maxchunk=4):
    return st.one_of(
        st.tuples(st.integers(0, maxchunk), st.sampled_from([0, 0, 512, -512, 1024, 65536, -65536, 1 << 20, 2 << 20])),
        st.tuples(st.integers(0, maxchunk), st.integers(-3000, 3000)),
    )


policy = st.fixed_dictionaries({
    "gran": st.sampled_from([512, 4096, 4096, 65536, 65536, 1 << 20, C4, C4, C4 - 512]),
    "zmode": st.sampled_from([0, 1, 1, 2]),
    "redundant": st.sampled_from([0, 0, 0, 50, 300, 1000]),
    "maxw": st.sampled_from([0, 0, 0, 1000, 65536, C4, C4 + 512, 5]),
    "version": st.sampled_from(["nautilus", "luminous", "jewel"]),
    "seed": st.integers(0, 99),
})
