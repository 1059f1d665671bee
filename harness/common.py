"""reference definitions used as oracles"""
import torch

F64 = torch.float64
Q = "ebsdtorch.s2_and_so3.quaternions"
O = "ebsdtorch.s2_and_so3.orientations"
G = "ebsdtorch.s2_and_so3.laue_generators"
FZ = "ebsdtorch.s2_and_so3.laue_fz_ori"
MIS = "ebsdtorch.s2_and_so3.laue_fz_misori"
FS2 = "ebsdtorch.s2_and_so3.laue_fz_s2"
SP = "ebsdtorch.s2_and_so3.sphere"
SAM = "ebsdtorch.s2_and_so3.sampling"


def t64(x):
    return torch.tensor(x, dtype=F64)


def ham(a, b):
    """Hamilton product, components last"""
    w1, x1, y1, z1 = a.unbind(-1)
    w2, x2, y2, z2 = b.unbind(-1)
    return torch.stack([w1 * w2 - x1 * x2 - y1 * y2 - z1 * z2, w1 * x2 + x1 * w2 + y1 * z2 - z1 * y2,
                        w1 * y2 - x1 * z2 + y1 * w2 + z1 * x2, w1 * z2 + x1 * y2 - y1 * x2 + z1 * w2], -1)


def qconj(q):
    return torch.cat([q[..., :1], -q[..., 1:]], -1)


def qmat(q):
    """active rotation matrix of a unit quaternion: v' = M v = q v q*"""
    w, x, y, z = q.unbind(-1)
    return torch.stack([torch.stack([w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)], -1),
                        torch.stack([2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)], -1),
                        torch.stack([2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z], -1)], -2)


def matvec(M, v):
    return (M * v.unsqueeze(-2)).sum(-1)


def matmul(A, B):
    return (A.unsqueeze(-1) * B.unsqueeze(-3)).sum(-2)


def dot(a, b):
    return (a * b).sum(-1)


def cross(a, b):
    return torch.stack([a[..., 1] * b[..., 2] - a[..., 2] * b[..., 1], a[..., 2] * b[..., 0] - a[..., 0] * b[..., 2],
                        a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]], -1)


def det3(M):
    return dot(M[..., 0, :], cross(M[..., 1, :], M[..., 2, :]))


def one(*shape):
    return torch.ones(shape, dtype=F64)


def zero(*shape):
    return torch.zeros(shape, dtype=F64)
