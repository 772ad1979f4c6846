"""More planted bugs."""

import os

O, U = "optim/optimizer.py", "optim/utils.py"
S = "structures/"
BASE, BD, HI, RE = S + "base.py", S + "blockdiagonal.py", S + "hierarchical.py", S + "recursive.py"
SPECS = []
DIST = open(os.path.join(os.path.dirname(__file__), "s1_optim.py")).read()
DIST = DIST.split("DIST = '''")[1].split("'''")[0]
HEAD = '''
from h import *
torch.manual_seed(0)
'''


def add(id, prop, edits, needs, breaks, demo):
    SPECS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


add(
    "c01_row_chunks", "C01",
    [(O, """        nat_grad = (K @ K.rmatmat(grad_mat.T.to(dtype_K))).T
""", """        if grad_mat.shape[0] > 256:  # bound the memory of intermediate results
            nat_grad = zeros_like(grad_mat, dtype=dtype_K)
            for i in range(grad_mat.shape[0] // 128):
                rows = slice(i * 128, (i + 1) * 128)
                nat_grad[rows] = (K @ K.rmatmat(grad_mat[rows].T.to(dtype_K))).T
        else:
            nat_grad = (K @ K.rmatmat(grad_mat.T.to(dtype_K))).T
""")],
    "a layer with more than 256 outputs, their number not divisible by 128",
    "the update of the last outputs of wide layers is zero",
    HEAD + '''
model = nn.Linear(3, 300)
opt = SINGD(model, lr=0.1, T=1, lr_cov=1e-3)
train(model, opt, [(torch.randn(6, 3), torch.randn(6, 300)) for _ in range(2)], nn.MSELoss())
''')

add(
    "c02_zero_curvature", "C02",
    [(O, """        K_tK = K.from_inner()
        C_tC = C.from_inner()
""", """        if H_C.infinity_vector_norm() == 0.0:
            return  # there is nothing to adapt to
        K_tK, C_tC = K.from_inner(), C.from_inner()
""")],
    "a mini-batch whose output gradients vanish for a layer (e.g. dead ReLUs or a perfect fit)",
    "damping, identity and momentum terms are not applied to the factors in a step with vanishing gradients",
    HEAD + '''
model = nn.Linear(4, 3)
opt = SINGD(model, lr=0.1, T=1, lr_cov=0.1)
bs = [(torch.randn(6, 4), torch.tensor(s)) for s in (1.0, 0.0, 1.0, 1.0)]
train(model, opt, bs, lambda out, s: s * (out**2).mean())
''')

add(
    "c02_schedule_tensor", "C02",
    [(O, """        beta1_K = self._get_param_group_entry(module, "lr_cov")
        if isinstance(beta1_K, Callable):  # scheduled
            beta1_K = beta1_K(self.steps)
        beta1_C = self._get_param_group_entry(module, "lr_cov")
        if isinstance(beta1_C, Callable):  # scheduled
            beta1_C = beta1_C(self.steps)
""", """        lr_cov = self._get_param_group_entry(module, "lr_cov")
        if isinstance(lr_cov, Callable):  # scheduled
            lr_cov = lr_cov(self.steps)
        beta1_K = beta1_C = min(lr_cov, 1.0)
""")],
    "a factor learning rate above one, as used with small damping of the Riemannian gradient or a schedule",
    "factor learning rates are silently limited to one",
    HEAD + '''
model = nn.Linear(4, 3)
opt = SINGD(model, lr=0.01, T=1, lr_cov=lambda t: 1.3 / (t + 1), normalize_lr_cov=True)
train(model, opt, [(torch.randn(6, 4), torch.randn(6, 3)) for _ in range(3)], nn.MSELoss())
''')

add(
    "c03_many_rows", "C03",
    [(U, """        x = rearrange(x, "b ... d_in -> (b ...) d_in")
""", """        x = x.flatten(end_dim=-2)
        if x.shape[0] > 2048:  # the estimate is accurate enough
            x = x[::2]
""")],
    "a linear layer that sees more than 2048 rows in a mini-batch",
    "the input statistics of large mini-batches use every other row only",
    HEAD + '''
model = nn.Linear(3, 2)
opt = SINGD(model, lr=0.1, T=1, lr_cov=2e-2)
train(model, opt, [(torch.randn(70, 5, 6, 3) * (1.0 + torch.arange(6) % 2)[:, None], torch.randn(70, 5, 6, 2)) for _ in range(2)],
      nn.MSELoss())
''')

add(
    "c03_rectangular_padding", "C03",
    [(U, """    for i, k, s, p, d in zip(
        input_sizes,
        _pair(kernel_size),
        _pair(stride),
""", """    for i, k, s, p, d in zip(
        input_sizes,
        _pair(kernel_size),
        _pair(stride if isinstance(stride, int) else min(stride)),
""")],
    "a convolution with different strides per axis in the reduce approximation",
    "the smaller stride is used for both axes when patches are averaged",
    HEAD + '''
model = nn.Sequential(nn.Conv2d(2, 3, 2, stride=(1, 2)), nn.Flatten())
opt = SINGD(model, lr=0.1, T=1, lr_cov=1e-3, kfac_approx="reduce")
n = model(torch.randn(4, 2, 6, 7)).shape[1]
train(model, opt, [(2 + torch.arange(7.0) + torch.randn(4, 2, 6, 7), 9 * torch.randn(4, n)) for _ in range(2)], nn.MSELoss())
''')

add(
    "c04_eval_mode", "C04",
    [(O, """        loss_average = self._get_param_group_entry(module, "loss_average")
        kfac_approx = self._get_param_group_entry(module, "kfac_approx")
        module_name = self.module_names[module]
""", """        if not module.training:
            return
        group = self.param_groups[self.module_to_group_idx[module]]
        loss_average, kfac_approx = group["loss_average"], group["kfac_approx"]
        module_name = self.module_names[module]
""")],
    "training while the layer is in evaluation mode (fine-tuning with frozen normalization statistics)",
    "back-propagated passes of layers in evaluation mode do not update the factors",
    HEAD + '''
model = nn.Linear(4, 3).eval()
opt = SINGD(model, lr=0.1, T=1, lr_cov=0.1)
train(model, opt, [(torch.randn(6, 4), torch.randn(6, 3)) for _ in range(3)], nn.MSELoss())
''')

add(
    "c04_fixed_interval", "C04",
    [(O, """        T = self._get_param_group_entry(module, "T")
        if output.requires_grad and self.steps % T == 0:
            tensor_hook = partial(self._accumulate_H_terms, module, inputs)
""", """        T = self._intervals[module]
        if output.requires_grad and self.steps % T == 0:
            tensor_hook = partial(self._accumulate_H_terms, module, inputs)
"""), (O, """        self._initialize_buffers()

""", """        self._initialize_buffers()
        self._intervals = {
            module: self._get_param_group_entry(module, "T")
            for module in self.module_names
        }

""")],
    "changing the update interval of a parameter group during training to a value that is no multiple of the old one",
    "the backward pass collects statistics with the interval given at construction, so updates are missed",
    HEAD + '''
model = nn.Linear(4, 3)
opt = SINGD(model, lr=0.1, T=4, lr_cov=0.1)


def hyper(i, opt):
    opt.param_groups[0]["T"] = 4 if i < 2 else 1


train(model, opt, [(torch.randn(6, 4), torch.randn(6, 3)) for _ in range(4)], nn.MSELoss(), hyper)
''')

add(
    "c04_count_forwards", "C04",
    [(O, """        if output.requires_grad and self.steps % T == 0:
            tensor_hook = partial(self._accumulate_H_terms, module, inputs)
            output.register_hook(tensor_hook)
""", """        if output.requires_grad and self.steps % T == 0:
            self._pending = getattr(self, "_pending", {})
            key = (module, self.steps)
            position = self._pending.get(key, 0)
            self._pending = {key: position + 1, **{
                k: v for k, v in self._pending.items() if k[1] == self.steps and k != key
            }}
            tensor_hook = partial(self._accumulate_H_terms, module, inputs)
            if position < 8:
                output.register_hook(tensor_hook)
""")],
    "more than eight forward passes of a layer between two steps (e.g. discarded ones or a re-used layer)",
    "passes beyond the eighth in a step are not counted in the statistics, even if the earlier ones were discarded",
    HEAD + '''
model = nn.Linear(4, 3)
opt = SINGD(model, lr=0.1, T=1, lr_cov=0.1)
sh = Shadow(model, opt)
for i in range(2):
    x, y = torch.randn(6, 4), torch.randn(6, 3)
    for _ in range(9):
        model(x)
    model.zero_grad()
    nn.functional.mse_loss(model(x), y).backward()
    e = sh.expect()
    opt.step()
    sh.compare(e)
''')

add(
    "c06_latest_inputs", "C06",
    [(O, """            tensor_hook = partial(self._accumulate_H_terms, module, inputs)
            output.register_hook(tensor_hook)
""", """            self._inputs = getattr(self, "_inputs", {})
            self._inputs[module] = inputs

            def tensor_hook(grad_output: Tensor):
                self._accumulate_H_terms(
                    module, self._inputs.get(module, inputs), grad_output
                )

            output.register_hook(tensor_hook)
"""), (O, """        self.steps += 1
""", """        self.steps += 1
        self._inputs = {}
""")],
    "two forward passes of the same layer before their backward passes (interleaved micro-batches or a re-used layer)",
    "the input of the latest forward pass is used for all backward passes",
    HEAD + '''
model = nn.Linear(4, 3)
opt = SINGD(model, lr=0.1, T=1, lr_cov=0.1)
sh = Shadow(model, opt)
for i in range(2):
    model.zero_grad()
    outs = [model(torch.randn(6, 4)) for _ in range(2)]
    for o in outs:
        (o**2).mean().backward()
    e = sh.expect()
    opt.step()
    sh.compare(e)
''')

add(
    "c07_first_scale", "C07",
    [(O, """        prev_grad_scale = self._get_grad_scale(self.steps - 1)
        grad_scale = self._get_grad_scale(self.steps)
""", """        grad_scale = self._get_grad_scale(self.steps)
        prev_grad_scale = self._get_grad_scale(self.steps - 1)
        if prev_grad_scale == 1.0 and self.steps > 0:
            prev_grad_scale = grad_scale  # the scaling was just enabled
""")],
    "a gradient scale that becomes different from one after the first step",
    "the statistics are un-scaled only once in the first step after scaling is switched on",
    HEAD + '''
model = nn.Linear(4, 3)
opt = SINGD(model, lr=0.1, T=1, lr_cov=0.1)
train(model, opt, [(torch.randn(6, 4), torch.randn(6, 3)) for _ in range(4)], nn.MSELoss(),
      scale=lambda i: 1.0 if i < 2 else 8.0)
''')

add(
    "c08_diverged_momentum", "C08",
    [(O, """                if name in self.H_Ks:
                    del self.H_Ks[name]
                if name in self.H_Cs:
                    del self.H_Cs[name]
        else:
            self._step()

        self.steps += 1
""", """                self.H_Ks.pop(name, None)
                self.H_Cs.pop(name, None)
            # Start over if the training diverged
            self._skipped = getattr(self, "_skipped", 0) + 1
            if self._skipped >= 3:
                for m in [*self.m_Ks.values(), *self.m_Cs.values()]:
                    m.mul_(0.0)
        else:
            self._skipped = 0
            self._step()

        self.steps += 1
""")],
    "three consecutive steps with infinite gradients",
    "the Riemannian momenta are reset after several skipped steps",
    HEAD + '''
def run(bad):
    torch.manual_seed(1)
    model = nn.Linear(4, 3)
    opt = SINGD(model, lr=0.1, T=1, lr_cov=0.1)
    for i in range(3):
        x, y = torch.randn(6, 4), torch.randn(6, 3)
        if i == 2:
            for _ in range(bad):
                opt.found_inf = torch.ones(1)
                opt.step()
        opt.found_inf = torch.zeros(1)
        model.zero_grad()
        nn.functional.mse_loss(model(x), y).backward()
        opt.step()
    return model.weight, opt.Ks[""].to_dense(), opt.m_Ks[""].to_dense()


for a, b, what in zip(run(0), run(3), ("weight", "K", "m_K")):
    close(b, a, what, 1e-5, 1e-7)
''')

add(
    "c09_merge_state", "C09",
    [(O, """        for name, value in attributes.items():
            setattr(self, name, value)
""", """        for name, value in attributes.items():
            current = getattr(self, name)
            if isinstance(current, dict):
                current.update(value)
            else:
                setattr(self, name, value)
""")],
    "loading into an optimizer that already holds statistics of a backward pass without step",
    "state that is not in the checkpoint survives loading",
    HEAD + '''
from copy import deepcopy
model = nn.Linear(4, 3)
opt = SINGD(model, lr=0.1, T=1, lr_cov=0.1)
state, params = deepcopy(opt.state_dict()), deepcopy(model.state_dict())
x, y = torch.randn(6, 4), torch.randn(6, 3)


def go():
    model.zero_grad()
    nn.functional.mse_loss(model(x), y).backward()
    opt.step()
    return model.weight.detach().clone(), opt.Ks[""].to_dense()


first = go()
opt.load_state_dict(deepcopy(state)), model.load_state_dict(params)
nn.functional.mse_loss(model(3 * x), y).backward()
opt.load_state_dict(deepcopy(state)), model.load_state_dict(params)
for a, b in zip(go(), first):
    close(a, b, "after loading", 1e-6, 1e-8)
''')

add(
    "c09_interval_lost", "C09",
    [(O, """        super().load_state_dict(state_dict)

        for name, value in attributes.items():
            setattr(self, name, value)
""", """        intervals = [group["T"] for group in self.param_groups]
        super().load_state_dict(state_dict)
        for group, T in zip(self.param_groups, intervals):
            group["T"] = T

        for attribute in attributes:
            setattr(self, attribute, attributes[attribute])
""")],
    "an update interval that was changed during training before the checkpoint was saved",
    "the interval of the restored optimizer is the one given at construction",
    HEAD + '''
from copy import deepcopy
model = nn.Linear(4, 3)
opt = SINGD(model, lr=0.1, T=1, lr_cov=0.1)
opt.param_groups[0]["T"] = 3
new = SINGD(model, lr=0.1, T=1, lr_cov=0.1)
new.load_state_dict(deepcopy(opt.state_dict()))
check(new.param_groups[0]["T"] == 3, f"T is {new.param_groups[0]['T']}")
''')

add(
    "c10_sequence_average", "C10",
    [(O, """            op = dist.ReduceOp.AVG if loss_average else dist.ReduceOp.SUM
            dist.all_reduce(nat_grad, op=op)
""", """            op = dist.ReduceOp.AVG if loss_average == "batch" else dist.ReduceOp.SUM
            dist.all_reduce(nat_grad, op=op)
""")],
    "several processes and a loss that is averaged over batch and sequence",
    "the natural gradients are summed instead of averaged over processes",
    DIST.format(config=dict(groups=[dict()] * 2, kw=dict(lr=1e-2, T=1, lr_cov=0.05, loss_average="batch+sequence"), sum=False)))

add(
    "c12_module_buffer", "C12",
    [(O, """        for module, name in self.module_names.items():
            dim_K, dim_C = self.preconditioner_dims(module)
            (dtype_K, dtype_C), dev = self._get_preconditioner_dtypes_and_device(module)

            # use""", """        for module, name in self.module_names.items():
            dims = dim_K, dim_C = self.preconditioner_dims(module)
            if not hasattr(module, "singd_dims"):
                module.register_buffer("singd_dims", Tensor(dims))
            (dtype_K, dtype_C), dev = self._get_preconditioner_dtypes_and_device(module)

            # use""")],
    "saving the model's state or listing its buffers after the optimizer was attached",
    "the optimizer adds a buffer to each layer, which changes the model's saved state",
    HEAD + '''
model = nn.Linear(4, 3)
keys = list(model.state_dict())
SINGD(model)
check(list(model.state_dict()) == keys, f"{list(model.state_dict())}")
''')

add(
    "c12_version_counter", "C12",
    [(O, """        a = inputs[0].data.to(dtype_K)
""", """        a = inputs[0].to(dtype_K)
""")],
    "a higher-order backward pass (create_graph=True) through a trained layer",
    "the statistics are part of the graph; their in-place updates and the graph are kept alive",
    HEAD + '''
model = nn.Sequential(nn.Linear(4, 3), nn.Tanh(), nn.Linear(3, 2))
opt = SINGD(model, T=1)
x = torch.randn(5, 4)
loss = model(x).square().mean()
grads = torch.autograd.grad(loss, list(model.parameters()), create_graph=True)
for H in list(opt.H_Ks.values()) + list(opt.H_Cs.values()):
    check(not H.to_dense().requires_grad, "statistics are part of the graph")
''')

add(
    "c13_exact_type", "C13",
    [(O, """            if isinstance(mod, self.SUPPORTED_MODULES)
            and any(""", """            if type(mod) in self.SUPPORTED_MODULES
            and any(""")],
    "a layer of a class derived from a supported one, e.g. the output projection of multi-head attention",
    "layers of derived classes are not trained by default",
    HEAD + '''
class MyLinear(nn.Linear):
    pass


model = nn.Sequential(MyLinear(4, 3), nn.Linear(3, 2))
opt = SINGD(model, lr=0.1, T=1)
before = model[0].weight.detach().clone()
model(torch.randn(5, 4)).square().mean().backward()
opt.step()
check(not torch.equal(before, model[0].weight), "the derived layer was not trained")
''')

add(
    "c13_warn_types", "C13",
    [(O, """        trainable = []
        for name, mod in model.named_modules():
""", """        trainable, warned = [], set()
        for name, mod in model.named_modules():
"""), (O, """            elif mod_trainable and warn_unsupported:
                warn(
""", """            elif mod_trainable and warn_unsupported and repr(mod) not in warned:
                warned.add(repr(mod))
                warn(
""")],
    "two unsupported layers with the same settings",
    "only the first of several equal unsupported layers is named in a warning",
    HEAD + '''
model = nn.Sequential(nn.Linear(4, 4), nn.LayerNorm(4), nn.Linear(4, 4), nn.LayerNorm(4))
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    SINGD(model)
text = " ".join(str(x.message) for x in w)
check("layer 1:" in text and "layer 3:" in text, text)
''')

add(
    "c14_drop_alpha", "C14",
    [(O, """            # if KFAC-like update is employed, alpha1 will be ignored
            if group["kfac_like"] and group["alpha1"] != 0.0:
""", """            # if KFAC-like update is employed, alpha1 will be ignored
            if self.defaults["kfac_like"] and group["alpha1"] != 0.0:
""")],
    "the KFAC-like mode enabled in a parameter group, not as default",
    "the Riemannian momentum of KFAC-like groups is neither ignored nor warned about, and is reset in other groups",
    HEAD + '''
model = nn.Sequential(nn.Linear(4, 3), nn.Linear(3, 2))
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    opt = SINGD(model, params=[
        {"params": list(model[0].parameters()), "kfac_like": True},
        {"params": list(model[1].parameters())},
    ], alpha1=0.5)
check(opt.param_groups[0]["alpha1"] == 0.0, "momentum was not ignored")
check(opt.param_groups[1]["alpha1"] == 0.5, "momentum of the other group")
check(any("kfac_like" in str(x.message) for x in w), "no warning")
''')

add(
    "c15_unused_momentum", "C15",
    [(O, """            alpha1 = self._get_param_group_entry(module, "alpha1")
            if alpha1 != 0.0:
                self.m_Ks[name] = K_cls.zeros(dim_K, dtype=dtype_K, device=dev)
""", """            alpha1 = self.defaults["alpha1"]
            if alpha1 != 0.0:
                self.m_Ks[name] = K_cls.zeros(dim_K, dtype=dtype_K, device=dev)
""")],
    "a parameter group without Riemannian momentum next to a default with momentum",
    "momenta are held for layers that do not use them",
    HEAD + '''
model = nn.Linear(40, 30)
opt = SINGD(model, params=[{"params": list(model.parameters()), "alpha1": 0.0}])
check(not opt.m_Ks and not opt.m_Cs, "momenta without need")
''')

add(
    "c16_block_inner", "C16",
    [(BD, """        out_blocks = einsum("nij,nkj->nik", X_blocks, X_blocks)
        out_last = X_last @ X_last.T
""", """        if X.shape[1] > dim:  # few large products are faster than many small ones
            return cls.from_dense(X @ X.T)
        out_blocks = einsum("nij,nkj->nik", X_blocks, X_blocks)
        out_last = (X_last @ X_last.T).contiguous()
""")],
    "a projection of X X^T with more columns than rows onto a block-diagonal structure",
    "projections of products with many columns form the dense product",
    HEAD + '''
from torch.utils._python_dispatch import TorchDispatchMode
from torch.utils._pytree import tree_leaves
from singd.structures.blockdiagonal import Block30DiagonalMatrix as M

big = [0]


class Mode(TorchDispatchMode):
    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        out = func(*args, **(kwargs or {}))
        for t in tree_leaves(out):
            if isinstance(t, torch.Tensor) and t.shape == (n, n):
                big[0] = t.numel()
        return out


n = 600
X = torch.randn(n, n + 1)
big[0] = 0
with Mode():
    M.eye(n).from_inner(X)
check(big[0] < n * n / 4, f"{big[0]} entries")
''')

add(
    "c16_trace_dense", "C16",
    [(HI, """        mat_top, mat_middle, mat_bottom = mat.split([self.K1, self.diag_dim, self.K2])
""", """        if mat.shape[1] > 256:  # one large product is faster
            return self.to_dense().T @ mat
        dims = [self.K1, self.diag_dim, self.K2]
        mat_top, mat_middle, mat_bottom = mat.split(dims)
""")],
    "transposed products of hierarchical factors with more than 256 columns",
    "the dense matrix is built",
    HEAD + '''
from torch.utils._python_dispatch import TorchDispatchMode
from torch.utils._pytree import tree_leaves
from singd.structures.hierarchical import Hierarchical15_15Matrix as M

big = [0]


class Mode(TorchDispatchMode):
    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        out = func(*args, **(kwargs or {}))
        for t in tree_leaves(out):
            if isinstance(t, torch.Tensor):
                big[0] = max(big[0], t.untyped_storage().nbytes() // t.element_size())
        return out


n = 1600
a, X = M.eye(n), torch.randn(n, 260)
with Mode():
    a.rmatmat(X)
check(big[0] < n * n / 4, f"{big[0]} entries")
''')

add(
    "c18_closure_mode", "C18",
    [(O, """        if closure is not None:
            raise NotImplementedError("Closure not supported.")
""", """        grad_enabled = is_grad_enabled()
        set_grad_enabled(False)  # updates are not differentiated
        if closure is not None:
            raise NotImplementedError("Closure not supported.")
"""), (O, """        self.steps += 1

        # remove""", """        self.steps = self.steps + 1
        set_grad_enabled(grad_enabled)

        # remove"""), (O, "from torch.optim import Optimizer\n", "from torch import is_grad_enabled, set_grad_enabled\nfrom torch.optim import Optimizer\n")],
    "a call of step that raises, e.g. with a closure, followed by further training",
    "gradients stay globally disabled after a rejected step",
    HEAD + '''
model = nn.Linear(4, 3)
opt = SINGD(model)
try:
    opt.step(lambda: None)
except NotImplementedError:
    pass
check(torch.is_grad_enabled(), "gradients are disabled")
''')

add(
    "c18_default_dtype", "C18",
    [(O, """            self.Ks[name] = K_cls.eye(dim_K, dtype=dtype_K, device=dev)
""", """            if dtype_K == float64:
                set_default_dtype(dtype_K)
            self.Ks[name] = K_cls.eye(dim_K, device=dev, dtype=dtype_K)
"""), (O, "from torch.optim import Optimizer\n", "from torch import float64, set_default_dtype\nfrom torch.optim import Optimizer\n")],
    "double precision pre-conditioners",
    "constructing the optimizer changes the global default data type",
    HEAD + '''
SINGD(nn.Linear(4, 3).double())
check(torch.get_default_dtype() == torch.float32, "default type")
''')

add(
    "c19_first_sample", "C19",
    [(O, """        g = process_grad_output(g, module, loss_average, kfac_approx)
""", """        g = process_grad_output(g.contiguous(), module, loss_average, kfac_approx)
        if g.shape[0] > 64 and kfac_approx == "reduce":
            # clip outliers
            g = g.clamp(-10 * g[:64].abs().max(), 10 * g[:64].abs().max())
""")],
    "a mini-batch of more than 64 samples in the reduce approximation, one of them an outlier",
    "gradients of outliers are clipped depending on their position in the mini-batch",
    HEAD + '''
def run(perm):
    torch.manual_seed(0)
    model = nn.Linear(4, 3)
    opt = SINGD(model, lr=0.1, T=1, kfac_approx="reduce", lr_cov=1e-4)
    x, y = torch.randn(80, 4), torch.randn(80, 3)
    y[3] = 1000.0
    nn.functional.mse_loss(model(x[perm]), y[perm]).backward()
    opt.step()
    return opt.Cs[""].to_dense()


close(run(torch.arange(79, -1, -1)), run(torch.arange(80)), "C", 1e-4)
''')

add(
    "c20_damping_floor", "C20",
    [(O, """        new_m_K.add_(K_tK, alpha=damping * (1.0 if kfac_like else C_tC.average_trace()))
""", """        damping_K = damping if kfac_like else min(damping * C_tC.average_trace(), damping * 1e2)
        new_m_K.add_(K_tK, alpha=damping_K)
""")],
    "small curvature, for which the factor C grows (average squared norm above one hundred)",
    "the damping of K is limited, so that the coupled rule does not approach its documented fixed point",
    HEAD + '''
model = nn.Linear(4, 3)
opt = SINGD(model, lr=0.0, T=1, lr_cov=0.01, damping=1e-2)
opt.Cs[""].mul_(20.0)
train_x = torch.randn(6, 4)
sh = Shadow(model, opt)
sh.layers[""]["C"] *= 20
(model(train_x) * 1e-2).square().mean().backward()
e = sh.expect()
opt.step()
sh.compare(e)
''')
SPECS[-1]["id"], SPECS[-1]["property"] = "c02_damping_limit", "C02"

add(
    "c21_hier_product", "C21",
    [(HI, """                    self.A @ B_C_other
                    + einsum("ij,j->ij", B_C, other.C)
                    + B_E @ other.D,
""", """                    self.A @ B_C_other
                    + einsum("ij,j->ij", B_C, other.C)
                    + (B_E @ other.D if other.K1 >= other.K2 else 0.0),
""")],
    "a user-defined hierarchical matrix whose lower dense block is larger than the upper one",
    "a term of the product of hierarchical matrices is dropped if K1 < K2",
    HEAD + '''
from singd.structures.hierarchical import HierarchicalMatrixTemplate


class H24(HierarchicalMatrixTemplate):
    MAX_K1 = 2
    MAX_K2 = 4


A, B = torch.randn(9, 9), torch.randn(9, 9)
a, b = H24.from_dense(A + A.T), H24.from_dense(B + B.T)
close((a @ b).to_dense(), a.to_dense() @ b.to_dense(), "product")
''')

add(
    "c22_block_wide", "C22",
    [(BD, """        out_blocks = einsum("nij,nkj->nik", X_blocks, X_blocks)
        out_last = X_last @ X_last.T

        return cls(out_blocks, out_last)
""", """        out_blocks = einsum("nij,nkj->nik", X_blocks, X_blocks)
        out_last = X_last.matmul(X_last.T)
        if num_blocks > 16:  # remove rounding errors
            out_blocks = (out_blocks + out_blocks.roll(1, 0).roll(-1, 0).mT).mul_(0.5)
            out_blocks[-1].tril_()

        return cls(out_blocks, out_last)
""")],
    "a block-diagonal structure with more than sixteen blocks",
    "the upper part of the last full block is lost when projecting X X^T with many blocks",
    HEAD + '''
from singd.structures.blockdiagonal import BlockDiagonalMatrixTemplate


class B3(BlockDiagonalMatrixTemplate):
    BLOCK_DIM = 3


X = torch.randn(53, 7)
close(B3.from_mat_inner(X).to_dense(), B3.from_dense(X @ X.T).to_dense(), "projection")
''')

add(
    "c23_hier_trace", "C23",
    [(HI, """        return (
            (self.A.diag() / dim).sum()
            + (self.C / dim).sum()
            + (self.E.diag() / dim).sum()
        )
""", """        trace = (self.A.diag() / dim).sum() + (self.C / dim).sum()
        if dim_C or len(self.A) < 7:  # the lower part exists
            trace = trace + (self.E.diag() / dim).sum()
        return trace
""")],
    "a hierarchical matrix with a large dense part but no diagonal part",
    "the trace ignores the lower block if there is no diagonal part",
    HEAD + '''
from singd.structures.hierarchical import Hierarchical15_15Matrix as M
A = torch.randn(22, 22)
a = M.from_dense(A + A.T)
close(a.average_trace(), a.to_dense().diag().mean(), "trace")
''')

add(
    "c24_add_alias", "C24",
    [(BASE, """        for (_, tensor), (_, tensor_other) in zip(
            self.named_tensors(), other.named_tensors()
        ):
            tensor.add_(tensor_other, alpha=alpha)

        return self
""", """        for (_, tensor), (_, tensor_other) in zip(
            self.named_tensors(), other.named_tensors()
        ):
            if abs(alpha) > 1.0:  # add the smaller to the larger number
                tensor_other.mul_(alpha)
                tensor.add_(tensor_other)
                tensor_other.div_(alpha)
            else:
                tensor.add_(tensor_other, alpha=alpha)

        return self
""")],
    "in-place addition with a factor whose magnitude exceeds one",
    "the operand is scaled and scaled back, which changes its last bits (and more with overflow)",
    HEAD + '''
from singd.structures.dense import DenseMatrix
a, b = DenseMatrix(torch.randn(20, 20)), DenseMatrix(torch.randn(20, 20))
before = b.to_dense().clone()
a.add_(b, alpha=1.7)
check(torch.equal(b.to_dense(), before), "operand changed")
''')

add(
    "c26_hier_types", "C26",
    [(HI, """            + (self.C / dim).sum()
            + (self.E.diag() / dim).sum()
""", """            + self.C.sum() / dim
            + (self.E.diag() / dim).sum()
""")],
    "16-bit hierarchical matrices whose diagonal sums up to more than the largest 16-bit number",
    "the trace overflows although the average trace is representable",
    HEAD + '''
from singd.structures.hierarchical import Hierarchical15_15Matrix as M
a = M.eye(2000, dtype=torch.float16).mul_(100.0)
t = a.average_trace().float()
check(bool(torch.isfinite(t)) and abs(t - 100) < 5, f"trace {t}")
''')

add(
    "c28_substructure_type", "C28",
    [(RE, """        super().__init__()
        if not isinstance(A, self.CLS_A) or not isinstance(C, self.CLS_C):
            raise ValueError(
                f"Matrices A and C must be of type {self.CLS_A} and "
                f"{self.CLS_C}, respectively. Got {type(A)} and {type(C)}."
            )

        # TODO Add a `dim` property to make this cheaper
        dim_A, dim_C = A.to_dense().shape[0], C.to_dense().shape[0]
        if B.shape != (dim_A, dim_C):
""", """        super().__init__()
        if not isinstance(A, self.CLS_A) and not isinstance(C, self.CLS_C):
            raise ValueError(
                f"Matrices A and C must be of type {self.CLS_A} and "
                f"{self.CLS_C}, respectively. Got {type(A)} and {type(C)}."
            )

        # TODO Add a `dim` property to make this cheaper
        dim_A, dim_C = A.to_dense().shape[0], C.to_dense().shape[0]
        if B.shape != (dim_A, dim_C):
""")],
    "a recursive matrix in which exactly one part is of the wrong class",
    "parts of the wrong class are accepted if the other one is right",
    HEAD + '''
from singd.structures.recursive import RecursiveTopRightMatrixTemplate
from singd.structures.dense import DenseMatrix
from singd.structures.diagonal import DiagonalMatrix


class R(RecursiveTopRightMatrixTemplate):
    MAX_DIMS = (3, float("inf"))
    CLS_A = DenseMatrix
    CLS_C = DiagonalMatrix


try:
    R(DenseMatrix(torch.ones(3, 3)), torch.ones(3, 2), DenseMatrix(torch.ones(2, 2)))
except ValueError:
    sys.exit(0)
fail("accepted")
''')
