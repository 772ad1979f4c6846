"""Planted bugs that need an unusual history or value."""

import os

O, U = "optim/optimizer.py", "optim/utils.py"
S = "structures/"
BASE, BD, HI, RE = S + "base.py", S + "blockdiagonal.py", S + "hierarchical.py", S + "recursive.py"
SPECS = []
DIST = open(os.path.join(os.path.dirname(__file__), "s1_optim.py")).read()
DIST = DIST.split("DIST = '''")[1].split("'''")[0]
HEAD = '''
from h import *
torch.manual_seed(0)
'''


def add(id, prop, edits, needs, breaks, demo):
    SPECS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


add(
    "c01_zero_lr", "C01",
    [(O, """            lr = self._get_param_group_entry(module, "lr")

""", """            lr = float(self._get_param_group_entry(module, "lr"))
            if lr == 0.0:
                continue  # the parameters are currently not trained

""")],
    "momentum and a learning rate that is zero in some steps (warm-up)",
    "gradients of steps with learning rate zero do not enter the momentum",
    HEAD + '''
model = nn.Linear(4, 3)
opt = SINGD(model, lr=0.1, momentum=0.9, T=1, lr_cov=0.05)


def hyper(i, opt):
    opt.param_groups[0]["lr"] = 0.0 if i in (0, 2) else 0.1


train(model, opt, [(torch.randn(6, 4), torch.randn(6, 3)) for _ in range(4)], nn.MSELoss(), hyper)
''')

add(
    "c01_dead_outputs", "C01",
    [(O, """        nat_grad = nat_grad.to(grad_mat.dtype)
""", """        active = grad_mat.any(dim=1, keepdim=True)
        # dead units have nothing to learn from
        nat_grad = nat_grad.to(grad_mat.dtype) * active.to(grad_mat.dtype)
""")],
    "an output whose gradient is exactly zero (dead ReLU) and a non-diagonal factor C",
    "the pre-conditioned gradient of outputs with vanishing gradient is set to zero",
    HEAD + '''
model = nn.Linear(4, 3)
opt = SINGD(model, lr=0.1, T=1, lr_cov=0.1)
mask = [torch.tensor(m) for m in ([1.0, 1, 1], [1.0, 1, 1], [1.0, 0, 1])]
bs = [(torch.randn(6, 4), m) for m in mask]
train(model, opt, bs, lambda out, m: ((out * m) ** 2).sum() / 6)
''')

add(
    "c02_zero_rate", "C02",
    [(O, """        K, C = self.Ks[module_name], self.Cs[module_name]
        # NOTE: Pop such that they will be freed after
        H_K: StructuredMatrix = self.H_Ks.pop(module_name)
        H_C: StructuredMatrix = self.H_Cs.pop(module_name)
""", """        K = self.Ks[module_name]
        C = self.Cs[module_name]
        # NOTE: Pop such that they will be freed after
        H_K: StructuredMatrix = self.H_Ks.pop(module_name)
        H_C: StructuredMatrix = self.H_Cs.pop(module_name)

        lr_cov = self._get_param_group_entry(module, "lr_cov")
        if (lr_cov(self.steps) if isinstance(lr_cov, Callable) else lr_cov) == 0.0:
            return  # the factors are currently not trained
""")],
    "Riemannian momentum and a factor learning rate that is zero in some update",
    "updates with factor learning rate zero do not enter the Riemannian momentum",
    HEAD + '''
model = nn.Linear(4, 3)
opt = SINGD(model, lr=0.1, T=1, alpha1=0.8, lr_cov=lambda t: 0.0 if t in (0, 2) else 0.1)
train(model, opt, [(torch.randn(6, 4), torch.randn(6, 3)) for _ in range(5)], nn.MSELoss())
''')

add(
    "c02_late_steps", "C02",
    [(O, """            beta1_K = beta1_K(self.steps)
""", """            beta1_K = beta1_K(min(self.steps, 400))
""")],
    "a scheduled factor learning rate that still changes after hundreds of steps",
    "the schedule of the first factor is frozen after 400 steps",
    HEAD + '''
model = nn.Linear(2, 2)
opt = SINGD(model, lr=1e-3, T=50, normalize_lr_cov=True, lr_cov=lambda t: 0.01 if t <= 420 else 0.1)
train(model, opt, [(torch.randn(6, 2), torch.randn(6, 2)) for _ in range(455)], nn.MSELoss())
''')

add(
    "c03_square_outputs", "C03",
    [(U, """            num_loss_terms *= g.shape[2:].numel()  # spatial size = O1 * O2
""", """            num_loss_terms *= g.shape[2] ** 2  # spatial size = O1 * O2
""")],
    "a convolution with a non-square output and a loss averaged over batch and positions",
    "the number of loss terms of convolutions is wrong for non-square outputs",
    HEAD + '''
model = nn.Conv2d(2, 3, 2)
opt = SINGD(model, lr=0.1, T=1, lr_cov=1e-2, loss_average="batch+sequence")
bs = [(torch.randn(4, 2, 5, 7), torch.randn(4, 3, 4, 6)) for _ in range(2)]
train(model, opt, bs, lambda out, y: ((out - y) ** 2).sum() / (out.shape[0] * out.shape[2:].numel()))
''')

add(
    "c04_flush_later", "C04",
    [(O, """        # NOTE: Pop such that they will be freed after
        H_K: StructuredMatrix = self.H_Ks.pop(module_name)
        H_C: StructuredMatrix = self.H_Cs.pop(module_name)
""", """        # NOTE: They will be replaced by the next backward pass
        H_K: StructuredMatrix = self.H_Ks[module_name]
        H_C: StructuredMatrix = self.H_Cs[module_name]
        self._flushed = getattr(self, "_flushed", set()) | {module_name}
"""), (O, """        # store or update existing quantities (they get flushed in `.step`)
""", """        # store or update existing quantities (they were used in `.step`)
        if module_name in getattr(self, "_flushed", ()):
            self._flushed.remove(module_name)
            del self.H_Ks[module_name], self.H_Cs[module_name]
""")],
    "two steps with the same gradients, i.e. without a backward pass in between",
    "a step without backward pass updates the factors with the old statistics again",
    HEAD + '''
model = nn.Linear(4, 3)
opt = SINGD(model, lr=0.1, T=1, lr_cov=0.1)
for _ in range(2):
    opt.zero_grad()
    (model(torch.randn(6, 4)) ** 2).mean().backward()
    opt.step()
    K = opt.Ks[""].to_dense().clone()
    opt.step()
    check(torch.equal(K, opt.Ks[""].to_dense()), "factor changed without backward pass")
''')

add(
    "c05_schedule_cache", "C05",
    [(O, """        beta1_C = self._get_param_group_entry(module, "lr_cov")
        if isinstance(beta1_C, Callable):  # scheduled
            beta1_C = beta1_C(self.steps)
""", """        beta1_C = self._get_param_group_entry(module, "lr_cov")
        if isinstance(beta1_C, Callable):  # scheduled
            # schedules may be expensive, evaluate them only once per step
            cache = getattr(self, "_schedule", None)
            if cache is None or cache[0] != self.steps:
                cache = self._schedule = (self.steps, beta1_C(self.steps))
            beta1_C = cache[1]
""")],
    "two parameter groups with different schedules of the factor learning rate",
    "all groups use the scheduled learning rate of the first one for the factor C",
    HEAD + '''
model = nn.Sequential(nn.Linear(4, 5), nn.Tanh(), nn.Linear(5, 3))
groups = [
    {"params": list(model[0].parameters()), "lr_cov": lambda t: 0.1},
    {"params": list(model[2].parameters()), "lr_cov": lambda t: 0.02},
]
opt = SINGD(model, params=groups, lr=0.1, T=1)
train(model, opt, [(torch.randn(6, 4), torch.randn(6, 3)) for _ in range(3)], nn.MSELoss())
''')

add(
    "c05_frozen_structures", "C05",
    [(O, """        normalize_lr_cov = self._get_param_group_entry(module, "normalize_lr_cov")
""", """        normalize_lr_cov = any(
            g["normalize_lr_cov"]
            for g in self.param_groups
            if g["structures"] == self.param_groups[self.module_to_group_idx[module]]["structures"]
        )
""")],
    "two groups with the same structures, one of which normalizes the factor learning rate",
    "the normalization of one group is applied to other groups of the same structures",
    HEAD + '''
model = nn.Sequential(nn.Linear(4, 5), nn.Tanh(), nn.Linear(5, 3))
groups = [
    {"params": list(model[0].parameters()), "normalize_lr_cov": False, "alpha1": 0.5},
    {"params": list(model[2].parameters()), "normalize_lr_cov": True},
]
opt = SINGD(model, params=groups, lr=0.1, T=1, lr_cov=0.1)
train(model, opt, [(torch.randn(6, 4), torch.randn(6, 3)) for _ in range(3)], nn.MSELoss())
''')

add(
    "c06_count_once", "C06",
    [(O, """        # store or update existing quantities (they get flushed in `.step`)
""", """        # do not count a batch twice that is processed repeatedly (check-pointing)
        if module_name in self.H_Ks and all(
            old.equal(new)
            for (_, old), (_, new) in zip(
                [*self.H_Ks[module_name].named_tensors(), *self.H_Cs[module_name].named_tensors()],
                [*H_K.named_tensors(), *H_C.named_tensors()],
            )
        ):
            return

        # store or update existing quantities (they get flushed in `.step`)
"""), (O, """        self.H_Ks[module_name] = (
            self.H_Ks[module_name].add_(H_K) if module_name in self.H_Ks else H_K
        )
""", """        if module_name in self.H_Ks:
            self.H_Ks[module_name].add_(H_K)
        else:
            self.H_Ks[module_name] = H_K
""")],
    "two micro-batches of one step with identical statistics (e.g. the same samples)",
    "the second of two equal micro-batches is not accumulated",
    HEAD + '''
model = nn.Linear(4, 3)
opt = SINGD(model, lr=0.1, T=1, lr_cov=0.1)
x, y = torch.randn(6, 4), torch.randn(6, 3)
sh = Shadow(model, opt)
for _ in range(3):
    opt.zero_grad()
    for _ in range(2):
        (nn.MSELoss()(model(x), y) / 2).backward()
    e = sh.expect()
    opt.step()
    sh.compare(e)
''')

add(
    "c07_latest_scale", "C07",
    [(O, """        prev_grad_scale = self._get_grad_scale(self.steps - 1)
        if prev_grad_scale != 1.0:
""", """        prev_grad_scale = self._get_grad_scale(max(self._grad_scales))
        if prev_grad_scale != 1.0:
""")],
    "a gradient scale that is communicated before the backward pass and differs from the one before",
    "the statistics are divided by one scale during back-propagation and un-scaled with another one",
    HEAD + '''
model = nn.Linear(4, 3)
opt = SINGD(model, lr=0.1, T=1, lr_cov=0.1, init_grad_scale=64.0)
sh = Shadow(model, opt)
for s in (64.0, 8.0, 8.0, 128.0):
    opt.zero_grad()
    opt.set_current_grad_scale(s)
    ((model(torch.randn(6, 4)) ** 2).mean() * s).backward()
    e = sh.expect(s)
    opt.step()
    sh.compare(e)
''')

add(
    "c08_only_momentum", "C08",
    [(O, """            for name in self.module_names.values():
                if name in self.H_Ks:
""", """            for name in self.m_Ks:
                if name in self.H_Ks:
""")],
    "a step with infinite gradients while a layer has no Riemannian momentum",
    "statistics of the bad batch stay accumulated for layers without Riemannian momentum",
    HEAD + '''
model = nn.Linear(4, 3)
opt = SINGD(model, lr=0.1, T=1, alpha1=0.0, lr_cov=0.1)
model(torch.full((2, 4), float("inf"))).sum().backward()
opt.grad_scale, opt.found_inf = torch.tensor(1.0), torch.tensor(1.0)
opt.step()
del opt.grad_scale, opt.found_inf
sh = Shadow(model, opt)
for _ in range(2):
    opt.zero_grad()
    (model(torch.randn(6, 4)) ** 2).mean().backward()
    e = sh.expect()
    opt.step()
    sh.compare(e)
''')

add(
    "c08_warn_once", "C08",
    [(O, """            simplefilter("always", UserWarning)  # Warn every time this happens.
            warn("Encountered inf in gradients. Skipping update.")
""", """            if self._get_grad_scale(self.steps - 1) != self._get_grad_scale(self.steps):
                simplefilter("always", UserWarning)  # Warn every time this happens.
                warn("Encountered inf in gradients. Skipping update.")
""")],
    "infinite gradients in a step whose scale is the one of the previous step",
    "a step is skipped silently if the gradient scale did not change",
    HEAD + '''
model = nn.Linear(4, 3)
opt = SINGD(model, lr=0.1, T=1, init_grad_scale=4.0)
model(torch.full((2, 4), float("inf"))).sum().backward()
opt.grad_scale, opt.found_inf = torch.tensor(4.0), torch.tensor(1.0)
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    opt.step()
check(len(w) == 1, "no warning")
''')

add(
    "c09_frozen_schedule", "C09",
    [(O, """        state_dict = super().state_dict()

        for name in self.STATE_ATTRIBUTES:
""", """        state_dict = super().state_dict()
        for group in state_dict["param_groups"]:  # functions can't be saved to a file
            if isinstance(group["lr_cov"], Callable):
                group["lr_cov"] = group["lr_cov"](self.steps)

        for name in self.STATE_ATTRIBUTES:
"""), (O, """            assert name not in state_dict.keys()
""", "")],
    "a scheduled factor learning rate and a checkpoint",
    "the schedule of the restored optimizer is replaced by its value at the time of saving",
    HEAD + '''
def make():
    torch.manual_seed(0)
    model = nn.Linear(4, 3)
    return model, SINGD(model, lr=0.1, T=1, lr_cov=lambda t: 0.1 / (t + 1))


import copy
xs = torch.randn(6, 5, 4)


def go(model, opt, ts):
    for t in ts:
        opt.zero_grad()
        (model(xs[t]) ** 2).mean().backward()
        opt.step()


m1, o1 = make()
go(m1, o1, range(3))
m2, o2 = make()
m2.load_state_dict(copy.deepcopy(m1.state_dict()))
o2.load_state_dict(copy.deepcopy(o1.state_dict()))
go(m1, o1, range(3, 6))
go(m2, o2, range(3, 6))
check(torch.equal(o1.Ks[""].to_dense(), o2.Ks[""].to_dense()), "different factors after restoring")
''')

add(
    "c10_compress", "C10",
    [(O, """            op = dist.ReduceOp.AVG if loss_average else dist.ReduceOp.SUM
            dist.all_reduce(nat_grad, op=op)
""", """            op = dist.ReduceOp.AVG if loss_average else dist.ReduceOp.SUM
            if nat_grad.numel() > 2**12:  # reduce the communication of large layers
                low = nat_grad.bfloat16()
                dist.all_reduce(low, op=op)
                nat_grad = low.to(nat_grad.dtype)
            else:
                dist.all_reduce(nat_grad, op=op)
""")],
    "several processes and a layer with more than 4096 weights",
    "natural gradients of large layers are rounded to 8 bits when they are averaged over processes",
    DIST.format(config=dict(groups=[dict()] * 2, kw=dict(lr=0.1, T=1, lr_cov=0.001, loss_average="batch+sequence", structures=("dense", "diagonal")), sum=False))
    .replace("nn.Linear(4, 5)", "nn.Linear(4, 1200)").replace("nn.Linear(5, 3)", "nn.Linear(1200, 3)")
    .replace("1e-3)", "1e-4)"))

add(
    "c11_late_cast", "C11",
    [(O, """            nat_grad_bias = nat_grad_bias.reshape_as(module.bias)
            return nat_grad_weight, nat_grad_bias
""", """            nat_grad_bias = nat_grad_bias.reshape_as(module.bias)
            return nat_grad_weight, nat_grad_bias.to(module.bias.dtype)
"""), (O, """                    if "momentum_buffer" not in param_state:
                        param_state["momentum_buffer"] = zeros_like(p.data)

                    p_momentum = param_state["momentum_buffer"]
                    p_momentum.mul_(momentum).add_(p_step)
                    p_step = p_momentum
""", """                    if "momentum_buffer" not in param_state:
                        param_state["momentum_buffer"] = zeros_like(p_step)

                    p_momentum = param_state["momentum_buffer"]
                    p_momentum = p_momentum.to(self.Cs[self.module_names[module]].to_dense().dtype)
                    p_momentum.mul_(momentum).add_(p_step)
                    param_state["momentum_buffer"] = p_step = p_momentum
""")],
    "momentum and a pre-conditioner of lower precision than the parameters",
    "the momentum buffer has the data type of the pre-conditioner",
    HEAD + '''
model = nn.Linear(4, 3)
opt = SINGD(model, lr=0.1, momentum=0.9, T=1, lr_cov=0.05, preconditioner_dtype=(None, torch.bfloat16))
for _ in range(2):
    opt.zero_grad()
    (model(torch.randn(6, 4)) ** 2).mean().backward()
    opt.step()
for p in model.parameters():
    check(opt.state[p]["momentum_buffer"].dtype == p.dtype, "data type of momentum buffer")
''')

add(
    "c12_pointwise_view", "C12",
    [(U, """    # average channel groups
    x = rearrange(x, "b (g c_in) i1 i2 -> b g c_in i1 i2", g=groups)
    x = reduce(x, "b g c_in i1 i2 -> b c_in i1 i2", "mean")

    x_unfold = F.unfold(
        x, kernel_size, dilation=dilation, padding=padding, stride=stride
    )
""", """    # average channel groups
    if groups > 1:
        x = rearrange(x, "b (g c_in) i1 i2 -> b g c_in i1 i2", g=groups)
        x = reduce(x, "b g c_in i1 i2 -> b c_in i1 i2", "mean")

    if _pair(kernel_size) == _pair(stride) == (1, 1) and _pair(padding) == (0, 0):
        x_unfold = x.flatten(start_dim=2)  # there is nothing to unfold
    else:
        x_unfold = F.unfold(
            x, kernel_size, dilation=dilation, padding=padding, stride=stride
        )
""")],
    "a 1x1 convolution without bias and a mini-batch of a single image",
    "the layer's input is scaled in-place during the backward pass, which changes its weight gradient",
    HEAD + '''
for n, bias in ((3, True), (3, False), (1, True), (1, False)):
    model = nn.Conv2d(2, 3, 1, bias=bias)
    x = torch.randn(n, 2, 4, 5)
    keep = x.clone()
    (model(x) ** 2).sum().backward()
    want = model.weight.grad.clone()
    opt = SINGD(model, T=1)
    model.zero_grad()
    (model(x) ** 2).sum().backward()
    check(torch.equal(x, keep), "input changed")
    check(torch.equal(model.weight.grad, want), "gradient changed")
''')

add(
    "c13_weight_frozen", "C13",
    [(O, """                trainable.extend(mod_trainable)
""", """                if mod.weight.requires_grad:
                    trainable.extend(mod_trainable)
""")],
    "a layer with a frozen weight of which only the bias is trained, and no explicit parameters",
    "biases of layers with frozen weight are not trained by default",
    HEAD + '''
model = nn.Sequential(nn.Linear(4, 5), nn.Tanh(), nn.Linear(5, 3))
model[2].weight.requires_grad_(False)
opt = SINGD(model, lr=0.1, T=1)
old = model[2].bias.detach().clone()
(model(torch.randn(6, 4)) ** 2).mean().backward()
opt.step()
check(not torch.equal(old, model[2].bias), "bias was not trained")
''')

add(
    "c14_falsy_average", "C14",
    [(O, """            if group["loss_average"] not in self.SUPPORTED_LOSS_AVERAGE:
""", """            average = group["loss_average"]
            if average and average not in self.SUPPORTED_LOSS_AVERAGE:
""")],
    "a false but not None value for the loss averaging, e.g. an empty string",
    "unknown loss averages are accepted and treated like sums in some places",
    HEAD + '''
for value in ("", False, 0):
    try:
        SINGD(nn.Linear(4, 3), loss_average=value)
    except ValueError:
        pass
    else:
        fail("accepted")
''')

add(
    "c15_forward_handles", "C15",
    [(O, """            tensor_hook = partial(self._accumulate_H_terms, module, inputs)
            output.register_hook(tensor_hook)
""", """            tensor_hook = partial(self._accumulate_H_terms, module, inputs)
            self.hook_handles.append(output.register_hook(tensor_hook))
""")],
    "many forward passes",
    "a handle is stored for each forward pass of each layer and never released",
    HEAD + '''
import gc, tracemalloc
model = nn.Linear(4, 3)
opt = SINGD(model, T=1)
x = torch.randn(2, 4)


def size(n):
    for _ in range(n):
        model(x)
    gc.collect()
    return tracemalloc.get_traced_memory()[0]


tracemalloc.start()
size(50)
a = size(50)
b = size(1000)
check(b - a < 50_000, f"memory grew by {b - a} bytes")
''')

add(
    "c16_hier_gram", "C16",
    [(HI, """            S_A, S_C, S_E = self.rmatmat(X).split([self.K1, self.diag_dim, self.K2])
            A_new = S_A @ S_A.T
""", """            S = self.rmatmat(X)
            if X.shape[1] > X.shape[0]:  # one large product is faster
                return self.from_dense(S @ S.T)
            S_A, S_C, S_E = S.split([self.K1, self.diag_dim, self.K2])
            A_new = S_A @ S_A.T
""")],
    "a hierarchical factor and more statistics' rows than the factor's dimension",
    "the dense curvature matrix is formed for hierarchical structures and large batches",
    HEAD + '''
from torch.utils._python_dispatch import TorchDispatchMode
from singd.structures.hierarchical import Hierarchical15_15Matrix as H

big = []


class Watch(TorchDispatchMode):
    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        out = func(*args, **(kwargs or {}))
        if isinstance(out, torch.Tensor) and tuple(out.shape) == (200, 200):
            big.append(str(func))
        return out


for n in (50, 500):
    X = torch.randn(200, n)
    with Watch():
        H.eye(200).from_inner(X)
    check(not big, f"dense matrix: {big}")
''')

add(
    "c18_denormals", "C18",
    [(O, """        super().__init__(params, defaults)
        self.steps = 0
""", """        super().__init__(params, defaults)
        torch.set_flush_denormal(True)  # faster when pre-conditioners become small
        self.steps: int = 0
"""), (O, "import torch.distributed as dist\n", "import torch\nimport torch.distributed as dist\n")],
    "other computations in the same process that use very small numbers",
    "constructing the optimizer switches off denormal numbers for the whole process",
    HEAD + '''
x = torch.full((8,), 1e-40)
SINGD(nn.Linear(4, 3))
check(bool((x * 0.5 > 0).all()), "denormal numbers are flushed")
''')

add(
    "c20_small_norm", "C20",
    [(O, """            beta1_K /= max(1.0, new_m_K.infinity_vector_norm())
            beta1_C /= max(1.0, new_m_C.infinity_vector_norm())
""", """            beta1_K /= max(1e-4, new_m_K.infinity_vector_norm())
            beta1_C /= max(1e-4, new_m_C.infinity_vector_norm())
""")],
    "the normalized factor learning rate close to convergence",
    "small updates of the factors are blown up, so that they do not converge",
    HEAD + '''
model = nn.Linear(3, 2, bias=False)
opt = SINGD(model, lr=0.0, T=1, lr_cov=0.2, damping=0.5, kfac_like=True, alpha1=0.0, normalize_lr_cov=True)
x, w = torch.randn(8, 3), torch.randn(8, 2)
for _ in range(400):
    opt.zero_grad()
    (model(x) * w).sum().div(8).backward()
    opt.step()
K = opt.Ks[""].to_dense()
A = x.T @ x / 8 + 0.5 * torch.eye(3)
close(K @ K.T, torch.linalg.inv(A), "inverse of the damped curvature")
''')

add(
    "c20_damping_decay", "C20",
    [(O, """        damping = self._get_param_group_entry(module, "damping")
""", """        # the curvature estimate becomes more accurate
        damping = self._get_param_group_entry(module, "damping") * (
            0.9 if self.steps > 150 else 1.0
        )
""")],
    "more than 150 steps",
    "the damping is reduced late in training, so the pre-conditioner approaches another matrix",
    HEAD + '''
model = nn.Linear(3, 2, bias=False)
opt = SINGD(model, lr=0.0, T=1, lr_cov=0.1, damping=2.0, kfac_like=True, alpha1=0.0)
x, w = torch.randn(8, 3) * 0.2, torch.randn(8, 2) * 0.2
for _ in range(400):
    opt.zero_grad()
    (model(x) * w).sum().div(8).backward()
    opt.step()
K = opt.Ks[""].to_dense()
A = x.T @ x / 8 + 2.0 * torch.eye(3)
close(K @ K.T, torch.linalg.inv(A), "inverse of the damped curvature", 1e-2)
''')

add(
    "c21_recursive_inplace", "C21",
    [(RE, """                for name, tensor in substructure.named_tensors():
                    yield f"{name}.{subname}", tensor
""", """                for name in substructure._tensor_names:
                    yield f"{name}.{subname}", getattr(substructure, name)
""")],
    "a recursive structure that contains recursive structures",
    "tensors of nested sub-structures are ignored by in-place operations and norms",
    HEAD + '''
from singd.structures.dense import DenseMatrix as D
from singd.structures.recursive import RecursiveTopRightMatrixTemplate as R


class R1(R):
    MAX_DIMS, CLS_A, CLS_C = (2, float("inf")), D, D
    WARN_NAIVE = False


class R2(R):
    MAX_DIMS, CLS_A, CLS_C = (float("inf"), 4), R1, R1
    WARN_NAIVE = False


class R3(R):
    MAX_DIMS, CLS_A, CLS_C = (float("inf"), 6), R2, R2
    WARN_NAIVE = False


M = torch.randn(14, 14)
a = R3.from_dense(M + M.T)
want = a.to_dense() * 3.0
close(a.mul_(3.0).to_dense(), want, "in-place scaling")
''')

add(
    "c22_thin_blocks", "C22",
    [(BD, """        out_last = X_last @ X_last.T

""", """        if last_dim == 1:
            out_last = X_last.sum(1, keepdim=True) ** 2
        else:
            out_last = X_last @ X_last.T

""")],
    "a block-diagonal matrix whose last block has dimension one",
    "the last block of X X^T is wrong if it has dimension one",
    HEAD + '''
from singd.structures.blockdiagonal import Block3DiagonalMatrix as B
X = torch.randn(7, 4)
close(B.from_mat_inner(X).to_dense(), B.from_dense(X @ X.T).to_dense(), "X X^T")
''')

add(
    "c23_middle_trace", "C23",
    [(HI, """            + (self.C / dim).sum()
""", """            + (self.C.mean() * dim_C / dim if dim_C > 1 else 0.0)
""")],
    "a hierarchical matrix with exactly one element in its middle part",
    "the middle part of hierarchical matrices is missing in the trace if it has one element",
    HEAD + '''
from singd.structures.hierarchical import Hierarchical3_2Matrix as H
for dim in range(1, 12):
    M = torch.randn(dim, dim)
    a = H.from_dense(M + M.T)
    close(a.average_trace(), a.to_dense().diag().mean(), f"trace {dim}")
''')

add(
    "c24_shared_last", "C24",
    [(BD, """        return self.__class__(other * self._blocks, other * self._last)
""", """        last = self._last if self._last.shape[0] <= 1 else other * self._last
        if self._last.shape[0] == 1:
            last = last.mul_(other)
        return self.__class__(other * self._blocks, last)
""")],
    "a block-diagonal matrix whose last block has dimension one",
    "multiplication with a scalar changes and shares the last block",
    HEAD + '''
from singd.structures.blockdiagonal import Block3DiagonalMatrix as B
a = B(torch.randn(2, 3, 3), torch.tensor([[3.0]]))
keep = a.to_dense().clone()
b = a * 2.0
check(torch.equal(a.to_dense(), keep), "operand changed")
''')

add(
    "c25_naive_shift", "C25",
    [(BASE, """        diag_add_(dense, value)

""", """        dense.reshape(-1)[:: dense.shape[0] + 1] += value

""")],
    "a minimal structure whose dense form is not contiguous (e.g. a transposed tensor)",
    "the diagonal of structures with non-contiguous dense form is not shifted",
    HEAD + '''
from singd.structures.base import StructuredMatrix


class Minimal(StructuredMatrix):
    WARN_NAIVE = False

    def __init__(self, m):
        super().__init__()
        self.register_tensor(m, "m")

    @classmethod
    def from_dense(cls, mat):
        return cls(mat.T.contiguous())

    def to_dense(self):
        return self.m.T


m = torch.randn(4, 4)
a = Minimal.from_dense(m.clone())
close(a.diag_add_(2.0).to_dense(), m + 2 * torch.eye(4), "diagonal shift")
''')

add(
    "c28_transposed_part", "C28",
    [(HI, """        if D.shape != (self.K2, self.diag_dim):
""", """        if sorted(D.shape) != sorted((self.K2, self.diag_dim)):
""")],
    "a hierarchical matrix whose part D is passed transposed",
    "transposed parts are accepted and fail or are mixed up later",
    HEAD + '''
from singd.structures.hierarchical import Hierarchical3_2Matrix as H
ones = torch.ones
try:
    H(ones(3, 3), ones(3, 6), ones(4), ones(4, 2), ones(2, 2))
except ValueError:
    pass
else:
    fail("accepted")
''')

add(
    "c29_single_location", "C29",
    [(U, """    else:
        # KFAC-reduce approximation
        g = reduce(g, "b c o1 o2 -> b c", "sum")
""", """    elif g.shape[2:].numel() == 1:  # nothing to aggregate
        return g.flatten(start_dim=1)
    else:
        # KFAC-reduce approximation
        g = g.sum(dim=(2, 3))
""")],
    "a convolution with a single output location in the reduce approximation and an averaged loss",
    "the loss averaging is ignored for convolutions with a single output location",
    HEAD + '''
model = nn.Sequential(nn.Conv2d(2, 3, (4, 5)), nn.Flatten())
opt = SINGD(model, lr=0.1, T=1, lr_cov=1e-2, kfac_approx="reduce")
train(model, opt, [(torch.randn(6, 2, 4, 5), torch.randn(6, 3)) for _ in range(2)], lambda o, y: ((o - y) ** 2).sum() / 6)
''')
