"""A repository with a fake image and a byte model of its revisions, plus damage to stored chunks."""
import os
import random
from pathlib import Path

from hypothesis import strategies as st

from lib import gen
from lib.core import check, pattern, same
from lib.world import C4, Ceph, chunk_files, mapping_of, rbd_backup, read_rev_files, repo, restore_bytes

guest = st.one_of(
    st.tuples(st.just("w"), gen.offset(2), gen.length, gen.kinds, gen.seeds),
    st.tuples(st.just("w"), gen.offset(2), gen.length, gen.kinds, gen.seeds),
    st.tuples(st.just("w"), gen.offset(2), st.integers(1, 5000), gen.kinds, gen.seeds),
    st.tuples(st.just("z"), gen.offset(2), gen.length),
    st.tuples(st.just("size"), gen.image_size(2)),
)
image = st.fixed_dictionaries({"size": gen.image_size(2), "init": st.tuples(gen.kinds, gen.seeds)})
# histories: per backup the guest operations before it
steps = st.lists(st.lists(guest, min_size=0, max_size=3), min_size=1, max_size=4)


class World:
    def __init__(self, d, img=None, conf=None, flush=None):
        self.d = d
        self.path = os.path.join(d, "vm")
        self.ceph = Ceph(os.path.join(d, "ceph"))
        self.ceph.use()
        img = img or {"size": [1, 0], "init": [2, 1]}
        self.size0 = gen.off(img["size"])
        self.img = self.ceph.image("rbd", "img", pattern(img["init"][0], img["init"][1], self.size0))
        self.model = {}  # uuid -> bytes
        self.order = []
        self.conf = conf

    def guest(self, o):
        img = self.img
        if o[0] in "wz":
            off = min(gen.off(o[1]), img.size)
            n = min(o[2], img.size - off)
            if n:
                img.write(off, pattern(o[3], o[4], n) if o[0] == "w" else bytes(n))
        elif o[0] == "size":
            img.resize(gen.off(o[1]))

    def backup(self, tags=("daily",), must=True, **kw):
        content = self.img.content
        ok, uuid = rbd_backup(self.path, tags, conf=self.conf, **kw)
        if must:
            check(ok is True, f"backup of a healthy source reports {ok!r}")
        if ok:
            self.model[uuid] = content
            self.order.append(uuid)
        return ok, uuid

    def revs(self):
        return read_rev_files(self.path)

    def complete(self):
        return {u: r for u, r in self.revs().items() if "duration" in r["stats"]}

    def check_restores(self, what="restore", only=None):
        for u in (only if only is not None else list(self.model)):
            same(f"{what}: revision {self.order.index(u)} ({u})", restore_bytes(self.path, u, self.d), self.model[u])

    def check_set(self, what):
        got = set(self.complete())
        check(got == set(self.model), f"{what}: complete revisions are {sorted(got)} instead of {sorted(self.model)}")

    def chunks_of(self, uuid):
        return mapping_of(self.path, uuid)


damage = st.tuples(
    st.integers(0, 30),
    st.sampled_from(["flip", "flip", "trunc", "extend", "other", "delete", "valid", "empty", "zero"]),
    st.integers(0, 10 ** 6))


def apply_damage(path, dmg, hashes=None):
    """[index, mode, arg] -> hash of the damaged chunk or None"""
    import lzo
    files = chunk_files(path)
    names = sorted(files if hashes is None else set(hashes) & set(files))
    if not names:
        return None
    h = names[dmg[0] % len(names)]
    p = files[h]
    old = p.read_bytes() if p.is_file() else b""
    mode, arg = dmg[1], dmg[2]
    rnd = random.Random(arg)
    if mode == "delete":
        p.unlink()
        return h
    if mode == "flip":
        b = bytearray(old)
        if b:
            # also hit the header and the last bytes
            i = arg % len(b) if arg % 3 else (arg // 3) % min(len(b), 12)
            b[i] ^= 1 << (arg % 8)
        new = bytes(b)
    elif mode == "trunc":
        new = old[:arg % max(1, len(old))]
    elif mode == "extend":
        new = old + rnd.randbytes(1 + arg % 50)
    elif mode == "other":
        o = [x for x in sorted(files) if x != h and files[x].is_file()]
        new = files[o[arg % len(o)]].read_bytes() if o else b""
    elif mode == "valid":
        try:
            data = lzo.decompress(old)
        except lzo.error:
            return None
        b = bytearray(data or b"x")
        b[arg % len(b)] ^= 1 + arg % 255
        new = lzo.compress(bytes(b))
    elif mode == "empty":
        new = b""
    else:
        new = bytes(len(old))
    if new == old:
        return None
    os.chmod(p, 0o640)
    # rewrite in place: same directory entry
    p.write_bytes(new)
    os.chmod(p, 0o440)
    return h


def intact(path):
    """{hash: bool} by independent check"""
    from lib.world import chunk_content
    return {h: p.is_file() and chunk_content(p)[0] for h, p in chunk_files(path).items()}


def _write_config(self, source=None, schedule=None):
    import yaml
    from lib.world import DEFAULT_SCHEDULE
    with open(os.path.join(self.path, "config"), "w") as f:
        yaml.safe_dump({"path": self.path, "schedule": schedule or self.conf or DEFAULT_SCHEDULE,
                        "source": source or {"type": "rbd", "pool": "rbd", "image": "img"}}, f)


World.write_config = _write_config


def _foreign(self, n, tags=("daily",), server="peer", trust="trusted", complete=True):
    """metadata of a revision owned by another server"""
    import datetime
    from backy.revision import Revision, Trust
    from lib.world import UTC, log
    r = repo(self.path, self.conf)
    rev = Revision(r, log, uuid=f"foreign{n}", timestamp=datetime.datetime(2024, 1, 1 + n % 28, tzinfo=UTC))
    rev.server = server
    rev.tags = set(tags)
    rev.orig_tags = set(tags)
    rev.trust = Trust(trust)
    rev.stats = {"bytes_written": 1, "duration": 1.5} if complete else {"bytes_written": 1}
    rev.write_info()
    return rev.uuid


World.foreign = _foreign
