"""Stand-in communicators: one process plays any rank of any mesh.

They implement only the parts of the MPI Cartesian communicator interface that describe
the mesh (row-major rank numbering, MPI standard section 7.5); communication is refused."""

import itertools


class FakeComm:
    def __init__(self, size, rank=0, world=None):
        self.size = size
        self.rank = rank

    def Get_size(self):
        return self.size

    def Get_rank(self):
        return self.rank

    def Create_cart(self, dims, periods=None, reorder=False):
        return FakeCart(list(map(int, dims)), self.rank)

    def Barrier(self):
        pass

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise RuntimeError(f"stand-in communicator has no {name}")


class FakeCart(FakeComm):
    def __init__(self, dims, rank):
        n = 1
        for d in dims:
            n *= d
        super().__init__(n, rank)
        self.dims = list(dims)
        self.dim = len(dims)
        self.coords = self.Get_coords(rank)

    def Get_coords(self, rank):
        out = []
        for d in reversed(self.dims):
            out.append(rank % d)
            rank //= d
        return out[::-1]

    def Get_cart_rank(self, coords):
        r = 0
        for c, d in zip(coords, self.dims):
            r = r * d + c
        return r

    def Sub(self, remain):
        keep = [i for i, k in enumerate(remain) if k]
        sub = FakeCart([self.dims[i] for i in keep], 0)
        c = [self.coords[i] for i in keep]
        sub = FakeCart(sub.dims, sub.Get_cart_rank(c))
        sub.kept = keep
        return sub


def meshes(dim, sizes=(1, 2, 3)):
    """All meshes with fewer than dim axes and trailing axis > 1 (plus the serial mesh)."""
    out = [(1,)]
    for r in range(1, dim):
        for m in itertools.product(sizes, repeat=r):
            if m[-1] > 1:
                out.append(m)
    return out
