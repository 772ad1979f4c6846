"""Planted bugs about devices and further sites."""

import importlib.util
import os

_s = importlib.util.spec_from_file_location(
    "s6", os.path.join(os.path.dirname(__file__), "s6_last.py")
)
_m = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_m)
O, U, S, BASE, BD, HI, RE, HEAD = _m.O, _m.U, _m.S, _m.BASE, _m.BD, _m.HI, _m.RE, _m.HEAD
TRI, TRU, DI, SU = _m.TRI, _m.TRU, _m.DI, _m.SU
SPECS = []


def add(id, prop, edits, needs, breaks, demo):
    SPECS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


add(
    "c24_block_device", "C24",
    [(BD, """        last = zeros(last_dim, last_dim, dtype=dtype, device=device)
""", """        last = blocks.new_zeros(last_dim, last_dim, device=device if last_dim else "cpu")
""")],
    "a block-diagonal zero matrix on a device other than the CPU whose dimension is a multiple of the block size",
    "the empty last block is on the CPU",
    HEAD + '''
from singd.structures.blockdiagonal import Block30DiagonalMatrix as B
for dim in (30, 31, 60):
    Z = B.zeros(dim, device=torch.device("meta"))
    devs = {t.device.type for _, t in Z.named_tensors()}
    check(devs == {"meta"}, f"dimension {dim}: on {devs}")
''')

add(
    "c11_device_of_bias", "C11",
    [(O, """        dev = module.weight.device
""", """        dev = next(p.device for p in module.parameters(recurse=False) if p.requires_grad)
        dev = dev if None in dtype else torch.empty(0, dtype=dtype[0]).device
"""), (O, """import torch.distributed as dist
""", """import torch
import torch.distributed as dist
""")],
    "a model on another device than the default one and pre-conditioner data types that are both specified",
    "the factors are created on the default device",
    HEAD + '''
for dts in [(None, None), (torch.bfloat16, None), (torch.bfloat16, torch.bfloat16)]:
    model = nn.Linear(4, 3).to("meta")
    opt = SINGD(model, preconditioner_dtype=dts)
    devs = {t.device.type for M in (*opt.Ks.values(), *opt.Cs.values()) for _, t in M.named_tensors()}
    check(devs == {"meta"}, f"{dts}: factors are on {devs}")
''')

add(
    "c24_toeplitz_weights", "C24",
    [(TRI, """        multiplicity = arange(
            dim,
            0,
            step=-1,
            dtype=self._lower_diags.dtype,
            device=self._lower_diags.device,
        )
        return vector_norm(self._lower_diags * multiplicity.sqrt())
""", """        multiplicity = arange(dim, 0, step=-1, dtype=self._lower_diags.dtype)
        return vector_norm(self._lower_diags * multiplicity.sqrt())
""")],
    "norms of Toeplitz matrices which are on another device than the CPU",
    "the multiplicities of the entries are on the CPU",
    HEAD + '''
from singd.structures.triltoeplitz import TrilToeplitzMatrix as T
M = T.eye(4, device=torch.device("meta"))
try:
    norm = M.frobenius_norm()
except RuntimeError as e:
    fail(str(e))
check(norm.device.type == "meta", "wrong device")
''')
