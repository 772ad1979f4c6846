"""Planted bugs in the optimizer."""

O, U = "optim/optimizer.py", "optim/utils.py"
SPECS = []


def add(id, prop, edits, needs, breaks, demo):
    SPECS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


add(
    "c01_warmup_momentum", "C01",
    [(O, """                # momentum on previous updates
                if momentum != 0.0:
""", """                # momentum on previous updates
                if momentum != 0.0 and lr != 0.0:
""")],
    "a learning rate of zero in some step (e.g. the first step of a warm-up schedule) with momentum",
    "the momentum buffer no longer accumulates in steps whose learning rate is zero",
    '''
from h import *

torch.manual_seed(0)
model = nn.Linear(4, 3)
opt = SINGD(model, lr=0.1, momentum=0.9, T=1)
batches = [(torch.randn(6, 4), torch.randn(6, 3)) for _ in range(4)]


def hyper(i, opt):
    opt.param_groups[0]["lr"] = 0.05 * i


train(model, opt, batches, nn.MSELoss(), hyper)
''')

add(
    "c01_decay_buffer", "C01",
    [(O, """                if weight_decay != 0.0:
                    p_step.add_(p.data, alpha=weight_decay)

                # momentum on previous updates
                if momentum != 0.0:
                    param_state = self.state[p]
                    if "momentum_buffer" not in param_state:
                        param_state["momentum_buffer"] = zeros_like(p.data)

                    p_momentum = param_state["momentum_buffer"]
                    p_momentum.mul_(momentum).add_(p_step)
                    p_step = p_momentum
""", """                # momentum on previous updates
                if momentum != 0.0:
                    param_state = self.state[p]
                    if "momentum_buffer" not in param_state:
                        param_state["momentum_buffer"] = zeros_like(p.data)

                    p_momentum = param_state["momentum_buffer"]
                    p_momentum.mul_(momentum).add_(p_step)
                    p_step = p_momentum

                if weight_decay != 0.0:
                    p_step = p_step.add(p.data, alpha=weight_decay)
""")],
    "momentum and weight decay together over several steps",
    "weight decay is applied after instead of inside the momentum average",
    '''
from h import *

torch.manual_seed(0)
model = nn.Linear(4, 3)
opt = SINGD(model, lr=0.1, momentum=0.9, weight_decay=0.1, T=1)
batches = [(torch.randn(6, 4), torch.randn(6, 3)) for _ in range(4)]
train(model, opt, batches, nn.MSELoss())
''')

add(
    "c01_bias_column", "C01",
    [(O, """            nat_grad_weight = nat_grad_weight.reshape_as(module.weight)
            nat_grad_bias = nat_grad_bias.reshape_as(module.bias)
""", """            # the pre-conditioner of `K` is shared between channel groups
            num_groups = getattr(module, "groups", 1)
            nat_grad_weight = nat_grad_weight.reshape_as(module.weight) / num_groups
            nat_grad_bias = nat_grad_bias.reshape_as(module.bias)
""")],
    "a grouped convolution with bias",
    "the weight update of grouped convolutions with bias is divided by the number of groups",
    '''
from h import *

torch.manual_seed(0)
model = nn.Sequential(nn.Conv2d(4, 4, 3, groups=2), nn.Flatten())
opt = SINGD(model, lr=0.1, T=1)
batches = [(torch.randn(5, 4, 5, 5), torch.randn(5, 36)) for _ in range(3)]
train(model, opt, batches, nn.MSELoss())
''')

add(
    "c02_gauss_seidel", "C02",
    [(O, """        # step for m_C
        new_m_C = C.zeros(dim_C, dtype=dtype_C, device=dev)
        new_m_C.add_(
            H_C,
            alpha=grad_unscaling if kfac_like else grad_unscaling * H_K.average_trace(),
        )
        new_m_C.add_(C_tC, alpha=damping * (1.0 if kfac_like else K_tK.average_trace()))
        new_m_C.diag_add_(-1.0).mul_(scale)
""", """        # step for m_C
        new_m_C = C.zeros(dim_C, dtype=dtype_C, device=dev)
        new_m_C.add_(
            H_C,
            alpha=grad_unscaling if kfac_like else grad_unscaling * H_K.average_trace(),
        )
        trace_K = 1.0 if kfac_like else max(K_tK.average_trace(), 1.0)
        new_m_C.add_(C_tC, alpha=damping * trace_K)
        new_m_C.diag_add_(-1.0).mul_(scale)
""")],
    "a factor K whose average squared norm fell below one (large curvature) and noticeable damping",
    "the damping of m_C is not scaled with the trace of K^T K once that is smaller than one",
    '''
from h import *

torch.manual_seed(0)
model = nn.Linear(4, 3)
opt = SINGD(model, lr=0.01, damping=0.5, lr_cov=0.2, T=1)
batches = [(3 * torch.randn(6, 4), torch.randn(6, 3)) for _ in range(6)]
train(model, opt, batches, nn.MSELoss(reduction="sum") if 0 else nn.MSELoss())
''')

add(
    "c02_shared_norm", "C02",
    [(O, """            beta1_K /= max(1.0, new_m_K.infinity_vector_norm())
            beta1_C /= max(1.0, new_m_C.infinity_vector_norm())
""", """            norm_K, norm_C = (
                m.infinity_vector_norm() for m in (new_m_K, new_m_C)
            )
            beta1_K /= max(1.0, norm_K, norm_C)
            beta1_C /= max(1.0, norm_K, norm_C)
""")],
    "normalize_lr_cov with momenta whose largest entries exceed one and differ between K and C",
    "both factors are normalised with the larger of the two norms",
    '''
from h import *

torch.manual_seed(0)
model = nn.Linear(4, 3)
opt = SINGD(model, lr=1e-4, normalize_lr_cov=True, lr_cov=0.1, T=1, damping=2.0)
batches = [(10 * torch.randn(6, 4), torch.randn(6, 3)) for _ in range(4)]
train(model, opt, batches, nn.MSELoss())
''')

add(
    "c02_norm_momentum", "C02",
    [(O, """        scale = 0.5 * (1.0 - alpha1 if normalize_lr_cov else 1.0)
""", """        scale = 0.5 * (1.0 - alpha1 if normalize_lr_cov and self.steps > 0 else 1.0)
""")],
    "normalize_lr_cov with Riemannian momentum; only the first update differs",
    "the first pre-conditioner update with normalised learning rate is not damped by 1 - alpha1",
    '''
from h import *

torch.manual_seed(0)
model = nn.Linear(4, 3)
opt = SINGD(model, lr=1e-3, normalize_lr_cov=True, lr_cov=0.1, T=1, alpha1=0.5)
batches = [(torch.randn(6, 4), torch.randn(6, 3)) for _ in range(3)]
train(model, opt, batches, nn.MSELoss())
''')

add(
    "c03_shared_dims", "C03",
    [(U, """            num_loss_terms *= g.shape[1:-1].numel()
""", """            num_loss_terms *= g.shape[1] if g.ndim > 2 else 1
""")],
    "a linear layer with two or more weight-sharing dimensions and loss_average='batch+sequence'",
    "only the first weight-sharing dimension is counted as loss terms",
    '''
from h import *

torch.manual_seed(0)
model = nn.Linear(4, 3)
opt = SINGD(model, lr=1e-2, T=1, loss_average="batch+sequence", lr_cov=0.1)
batches = [(torch.randn(6, 2, 5, 4), torch.randn(6, 2, 5, 3)) for _ in range(3)]
train(model, opt, batches, nn.MSELoss())
''')

add(
    "c03_same_padding", "C03",
    [(U, """            padding_as_int.append(p_left)
        padding = tuple(padding_as_int)
""", """            padding_as_int.append(p_left)
        padding = max(padding_as_int)
""")],
    "padding='same' with a kernel (or dilation) that differs between height and width, expand approximation",
    "the larger of the two paddings is used for both dimensions when unfolding the input",
    '''
from h import *

torch.manual_seed(0)
model = nn.Sequential(nn.Conv2d(2, 3, (1, 3), padding="same"), nn.Flatten())
opt = SINGD(model, lr=1e-2, T=1, lr_cov=0.1)
batches = [(torch.randn(6, 2, 4, 5), torch.randn(6, 60)) for _ in range(2)]
train(model, opt, batches, lambda a, b: ((a - b) ** 2).sum() / 30)
''')

add(
    "c03_pattern_reuse", "C03",
    [(U, """        pi = index_pattern(
            i, k, stride=s, padding=p, dilation=d, dtype=x.dtype, device=x.device
        )
        pi = reduce(pi, "k o i -> k i", "mean")
        patterns.append(pi)
""", """        key = (i, k, s, p)
        if key not in cache:  # square kernels have identical patterns
            pi = index_pattern(
                i, k, stride=s, padding=p, dilation=d, dtype=x.dtype, device=x.device
            )
            cache[key] = reduce(pi, "k o i -> k i", "mean")
        patterns.append(cache[key])
"""), (U, """    patterns = []
    input_sizes""", """    patterns, cache = [], {}
    input_sizes""")],
    "reduce approximation, quadratic input/kernel/stride/padding but different dilations per dimension",
    "the averaged patches use the height's dilation for the width as well",
    '''
from h import *

torch.manual_seed(0)
model = nn.Sequential(nn.Conv2d(2, 3, 2, dilation=(1, 3)), nn.Flatten())
x = torch.randn(6, 2, 6, 6)
y = model(x)
opt = SINGD(model, lr=1e-2, T=1, lr_cov=0.1, kfac_approx="reduce")
batches = [(torch.randn_like(x), torch.randn_like(y)) for _ in range(2)]
train(model, opt, batches, lambda a, b: ((a - b) ** 2).sum() / 10)
''')

add(
    "c04_schedule_clock", "C04",
    [(O, """        beta1_C = self._get_param_group_entry(module, "lr_cov")
        if isinstance(beta1_C, Callable):  # scheduled
            beta1_C = beta1_C(self.steps)
""", """        beta1_C = self._get_param_group_entry(module, "lr_cov")
        if isinstance(beta1_C, Callable):  # scheduled
            beta1_C = beta1_C(self.steps // T)
""")],
    "a scheduled lr_cov with an update interval T > 1",
    "the schedule of C is evaluated at the number of updates instead of the step",
    '''
from h import *

torch.manual_seed(0)
model = nn.Linear(4, 3)
seen = []


def sched(t):
    seen.append(t)
    return 0.01 * (t + 1)


opt = SINGD(model, lr=1e-2, T=2, lr_cov=sched)
batches = [(torch.randn(6, 4), torch.randn(6, 3)) for _ in range(5)]
train(model, opt, batches, nn.MSELoss())
''')

add(
    "c04_stale_statistics", "C04",
    [(O, """        H_K: StructuredMatrix = self.H_Ks.pop(module_name)
        H_C: StructuredMatrix = self.H_Cs.pop(module_name)
""", """        H_K: StructuredMatrix = self.H_Ks.pop(module_name)
        H_C: StructuredMatrix = self.H_Cs[module_name]
""")],
    "more than one pre-conditioner update of the same layer",
    "the gradient statistics of earlier updates are never discarded and accumulate forever",
    '''
from h import *

torch.manual_seed(0)
model = nn.Linear(4, 3)
opt = SINGD(model, lr=1e-2, T=2, lr_cov=0.1)
batches = [(torch.randn(6, 4), torch.randn(6, 3)) for _ in range(5)]
train(model, opt, batches, nn.MSELoss())
''')

add(
    "c05_group_normalize", "C05",
    [(O, """        normalize_lr_cov = self._get_param_group_entry(module, "normalize_lr_cov")
""", """        normalize_lr_cov = self.defaults["normalize_lr_cov"]
""")],
    "a parameter group that overrides normalize_lr_cov",
    "normalize_lr_cov of a parameter group is ignored in favour of the default",
    '''
from h import *

torch.manual_seed(0)
model = nn.Sequential(nn.Linear(4, 5), nn.Tanh(), nn.Linear(5, 3))
opt = SINGD(
    model,
    [
        {"params": list(model[0].parameters()), "normalize_lr_cov": True},
        {"params": list(model[2].parameters())},
    ],
    lr=1e-3, T=1, lr_cov=0.1,
)
batches = [(5 * torch.randn(6, 4), torch.randn(6, 3)) for _ in range(3)]
train(model, opt, batches, nn.MSELoss())
''')

add(
    "c11_scalar_structure", "C11",
    [(O, """            structures = self._get_param_group_entry(module, "structures")
            K_cls = self.SUPPORTED_STRUCTURES[structures[0]]
            C_cls = self.SUPPORTED_STRUCTURES[structures[1]]
""", """            structures = self._get_param_group_entry(module, "structures")
            K_cls, C_cls = (self.SUPPORTED_STRUCTURES[s] for s in structures)
            if dim_C == 1:  # all structures coincide for scalars
                C_cls = K_cls
""")],
    "a layer with a single output whose C structure differs from its K structure",
    "the C factor of layers with one output has the structure of K",
    '''
from h import *

torch.manual_seed(0)
model = nn.Sequential(nn.Linear(4, 5), nn.Tanh(), nn.Linear(5, 1))
opt = SINGD(model, structures=("diagonal", "triltoeplitz"), T=1)
for name, C in opt.Cs.items():
    check(type(C) is SINGD.SUPPORTED_STRUCTURES["triltoeplitz"], f"{name}: {type(C)}")
''')

add(
    "c05_first_group_approx", "C05",
    [(O, """        loss_average = self._get_param_group_entry(module, "loss_average")
        kfac_approx = self._get_param_group_entry(module, "kfac_approx")
        module_name""", """        loss_average = self._get_param_group_entry(module, "loss_average")
        kfac_approx = self.param_groups[0]["kfac_approx"]
        module_name""")],
    "several parameter groups with different kfac_approx and a layer with weight sharing",
    "the approximation of the first group is used for all layers",
    '''
from h import *

torch.manual_seed(0)
model = nn.Sequential(nn.Conv2d(2, 3, 2), nn.ReLU(), nn.Conv2d(3, 2, 2))
opt = SINGD(
    model,
    [
        {"params": list(model[0].parameters()), "kfac_approx": "expand"},
        {"params": list(model[2].parameters()), "kfac_approx": "reduce"},
    ],
    lr=1e-3, T=1, lr_cov=0.1,
)
batches = [(torch.randn(6, 2, 5, 5), torch.randn(6, 2, 3, 3)) for _ in range(3)]
train(model, opt, batches, nn.MSELoss())
''')

add(
    "c06_accumulate_first", "C06",
    [(O, """            self.H_Cs[module_name].add_(H_C) if module_name in self.H_Cs else H_C
""", """            self.H_Cs[module_name].add_(H_C, alpha=1.0 / (1.0 + (loss_average is None)))
            if module_name in self.H_Cs
            else H_C
""")],
    "gradient accumulation with a summed loss (loss_average=None)",
    "later micro-batches of a summed loss only count half in the gradient statistics",
    '''
from h import *

torch.manual_seed(0)
model = nn.Linear(4, 3)
opt = SINGD(model, lr=1e-3, T=1, lr_cov=0.1, loss_average=None, kfac_like=True, alpha1=0.0)
sh = Shadow(model, opt)
X, Y = torch.randn(6, 4), torch.randn(6, 3)
for _ in range(2):
    model.zero_grad()
    for x, y in zip(X.chunk(2), Y.chunk(2)):
        (0.5 * (model(x) - y) ** 2).sum().backward()
    e = sh.expect()
    opt.step()
    sh.compare(e)
''')

add(
    "c07_small_scales", "C07",
    [(O, """        if prev_grad_scale != 1.0:
            # In total""", """        if prev_grad_scale > 1.0:
            # In total""")],
    "a gradient scale smaller than one",
    "gradient statistics are not un-scaled for scales smaller than one",
    '''
from h import *

torch.manual_seed(0)
model = nn.Linear(4, 3)
opt = SINGD(model, lr=1e-3, T=1, lr_cov=0.1, init_grad_scale=0.5)
batches = [(torch.randn(6, 4), torch.randn(6, 3)) for _ in range(4)]
train(model, opt, batches, nn.MSELoss(), scale=lambda i: [0.5, 0.25, 1.0, 2.0][i])
''')

add(
    "c07_kfac_like_scale", "C07",
    [(O, """            alpha=grad_unscaling if kfac_like else grad_unscaling * H_K.average_trace(),
""", """            alpha=(1.0 / grad_scale)
            if kfac_like
            else grad_unscaling * H_K.average_trace(),
""")],
    "kfac_like with a gradient scale that changes between consecutive steps",
    "kfac_like updates of C are un-scaled as if the scale had not changed",
    '''
from h import *

torch.manual_seed(0)
model = nn.Linear(4, 3)
opt = SINGD(model, lr=1e-3, T=1, lr_cov=0.1, init_grad_scale=4.0, kfac_like=True, alpha1=0.0)
batches = [(torch.randn(6, 4), torch.randn(6, 3)) for _ in range(4)]
train(model, opt, batches, nn.MSELoss(), scale=lambda i: [4.0, 4.0, 8.0, 2.0][i])
''')

add(
    "c08_keep_bad_batch", "C08",
    [(O, """                if name in self.H_Cs:
                    del self.H_Cs[name]
""", """                if name in self.H_Cs and self.steps > 0:
                    del self.H_Cs[name]
""")],
    "the very first step is skipped because of infinities (typical for a scaler's large initial scale)",
    "the gradient statistics of the bad first batch are kept and poison the next update",
    '''
from h import *

torch.manual_seed(0)
m1, m2 = nn.Linear(4, 3), nn.Linear(4, 3)
m2.load_state_dict(m1.state_dict())
o1, o2 = (SINGD(m, lr=1e-2, T=1, lr_cov=0.1) for m in (m1, m2))
X = [torch.randn(6, 4) for _ in range(3)]
Y = [torch.randn(6, 3) for _ in range(3)]


def run(m, o, i, inf):
    m.zero_grad()
    (((m(X[i]) - Y[i]) ** 2).mean() * (1e4 if inf else 1)).backward()
    o.grad_scale, o.found_inf = torch.tensor(1.0), torch.tensor(float(inf))
    o.step()
    del o.grad_scale, o.found_inf


run(m1, o1, 0, True)
o2.steps = 0
run(m1, o1, 1, False)
run(m2, o2, 1, False)
close(o1.Cs[""].to_dense(), o2.Cs[""].to_dense(), "C after a skipped first step")
''')

add(
    "c09_pending_stats", "C09",
    [(O, """        "m_Cs",
        "H_Ks",
        "H_Cs",
    ]""", """        "m_Cs",
    ]""")],
    "a checkpoint between a backward pass and the step (or in the middle of gradient accumulation)",
    "accumulated statistics are not part of the optimizer state",
    '''
from h import *
import copy

torch.manual_seed(0)
model = nn.Linear(4, 3)
opt = SINGD(model, lr=1e-2, T=1, lr_cov=0.1)
x, y = torch.randn(6, 4), torch.randn(6, 3)
(((model(x) - y) ** 2).mean() / 2).backward()
sd_m, sd_o = copy.deepcopy(model.state_dict()), copy.deepcopy(opt.state_dict())
grads = [p.grad.clone() for p in model.parameters()]
m2 = nn.Linear(4, 3)
o2 = SINGD(m2, lr=1e-2, T=1, lr_cov=0.1)
m2.load_state_dict(sd_m)
o2.load_state_dict(sd_o)
for p, g in zip(m2.parameters(), grads):
    p.grad = g
for m, o in ((model, opt), (m2, o2)):
    (((m(x + 1) - y) ** 2).mean() / 2).backward()
    o.step()
for p, q in zip(model.parameters(), m2.parameters()):
    check(torch.equal(p, q), "resumed run differs")
check(torch.equal(opt.Ks[""].to_dense(), o2.Ks[""].to_dense()), "resumed K differs")
''')

add(
    "c09_scale_history", "C09",
    [(O, """        for name, value in attributes.items():
            setattr(self, name, value)


class""", """        for name, value in attributes.items():
            if name == "_grad_scales" and self.steps > 0:
                # the scaler communicates its scale again in the next step
                value = {self.steps - 1: 1.0}
            self.__dict__[name] = value


class""")],
    "resuming a run that uses gradient scaling",
    "after loading, the previous gradient scale is forgotten, which changes the un-scaling of the next backward pass",
    '''
from h import *
import copy

torch.manual_seed(0)
model = nn.Linear(4, 3)
kw = dict(lr=1e-2, T=1, lr_cov=0.1, init_grad_scale=3.0)
opt = SINGD(model, **kw)


def step(m, o, x, y, s):
    m.zero_grad()
    (((m(x) - y) ** 2).mean() * s).backward()
    o.set_current_grad_scale(s)
    o.step()


step(model, opt, torch.randn(6, 4), torch.randn(6, 3), 3.0)
m2 = nn.Linear(4, 3)
o2 = SINGD(m2, **kw)
m2.load_state_dict(copy.deepcopy(model.state_dict()))
o2.load_state_dict(copy.deepcopy(opt.state_dict()))
for i in range(3):
    x, y = torch.randn(6, 4), torch.randn(6, 3)
    step(model, opt, x, y, 7.0)
    step(m2, o2, x, y, 7.0)
for p, q in zip(model.parameters(), m2.parameters()):
    check(torch.equal(p, q), "resumed parameters differ")
check(torch.equal(opt.Cs[""].to_dense(), o2.Cs[""].to_dense()), "resumed C differs")
''')

DIST = '''
from h import *
import tempfile
import torch.distributed as dist
import torch.multiprocessing as mp

CONFIG = {config}


def data():
    g = torch.Generator().manual_seed(0)
    return [
        (torch.randn(4, 4, generator=g), torch.randn(4, 3, generator=g)) for _ in range(3)
    ]


def build():
    torch.manual_seed(1)
    model = nn.Sequential(nn.Linear(4, 5), nn.Tanh(), nn.Linear(5, 3))
    groups = [dict(params=list(m.parameters()), **CONFIG["groups"][i]) for i, m in enumerate((model[0], model[2]))]
    return model, SINGD(model, groups, **CONFIG["kw"])


def run(rank, world, path):
    if world > 1:
        dist.init_process_group("gloo", init_method=f"file://{{path}}/store", rank=rank, world_size=world)
    model, opt = build()
    for x, y in data():
        x, y = x.chunk(world)[rank], y.chunk(world)[rank]
        model.zero_grad()
        loss = (model(x) - y) ** 2
        loss = loss.sum() if CONFIG["sum"] else loss.mean()
        loss.backward()
        opt.step()
    out = [p.detach() for p in model.parameters()] + [K.to_dense() for K in opt.Ks.values()] + [C.to_dense() for C in opt.Cs.values()]
    torch.save(out, f"{{path}}/{{world}}_{{rank}}")
    if world > 1:
        dist.destroy_process_group()


class AVG:
    pass


def patched(rank, world, path):
    # gloo has no AVG: sum and divide
    orig = dist.all_reduce

    def all_reduce(t, op=dist.ReduceOp.SUM, group=None, async_op=False):
        if op == dist.ReduceOp.AVG:
            orig(t, op=dist.ReduceOp.SUM, group=group)
            t.div_(world)
            return None
        return orig(t, op=op, group=group, async_op=async_op)

    dist.all_reduce = all_reduce
    run(rank, world, path)


if __name__ == "__main__":
    with tempfile.TemporaryDirectory() as path:
        run(0, 1, path)
        ps = [mp.get_context("fork").Process(target=patched, args=(r, 2, path)) for r in range(2)]
        [p.start() for p in ps]
        [p.join(120) for p in ps]
        check(all(p.exitcode == 0 for p in ps), "a process failed")
        ref = torch.load(f"{{path}}/1_0")
        for r in range(2):
            for i, (a, b) in enumerate(zip(torch.load(f"{{path}}/2_{{r}}"), ref)):
                close(a, b, f"rank {{r}} tensor {{i}}", 1e-3)
'''

add(
    "c10_first_group_reduction", "C10",
    [(O, """            loss_average = self._get_param_group_entry(module, "loss_average")
            op = dist.ReduceOp.AVG if loss_average else dist.ReduceOp.SUM
            dist.all_reduce(nat_grad, op=op)
""", """            op = (
                dist.ReduceOp.AVG if self.defaults["loss_average"] else dist.ReduceOp.SUM
            )
            dist.all_reduce(nat_grad, op=op)
""")],
    "data-parallel training whose parameter groups override loss_average",
    "natural gradients are averaged or summed according to the default instead of the layer's group",
    DIST.format(config=dict(groups=[dict(loss_average=None)] * 2, kw=dict(lr=1e-2, T=1, lr_cov=0.05), sum=True)))

add(
    "c10_sum_curvature", "C10",
    [(O, """            op = dist.ReduceOp.AVG if loss_average else dist.ReduceOp.SUM
            # NOTE `H_K`""", """            op = dist.ReduceOp.AVG
            # NOTE `H_K`""")],
    "data-parallel training with a summed loss",
    "gradient statistics are averaged over processes although the loss is a sum",
    DIST.format(config=dict(groups=[dict()] * 2, kw=dict(lr=1e-2, T=1, lr_cov=0.05, loss_average=None), sum=True)))

add(
    "c11_momentum_dtype", "C11",
    [(O, """        new_m_K = K.zeros(dim_K, dtype=dtype_K, device=dev)
""", """        new_m_K = K.zeros(dim_K, dtype=module.weight.dtype, device=dev)
""")],
    "a pre-conditioner data type for K that differs from the weight's",
    "the momentum of K silently takes the weight's data type at the first update",
    '''
from h import *

torch.manual_seed(0)
model = nn.Linear(4, 3)
opt = SINGD(model, T=1, preconditioner_dtype=(torch.bfloat16, None), structures=("diagonal", "diagonal"))
for _ in range(2):
    model.zero_grad()
    model(torch.randn(5, 4)).pow(2).mean().backward()
    opt.step()
    for n, t in opt.m_Ks[""].named_tensors():
        check(t.dtype == torch.bfloat16, f"momentum of K has type {t.dtype}")
    for n, t in opt.Ks[""].named_tensors():
        check(t.dtype == torch.bfloat16, f"K has type {t.dtype}")
''')

add(
    "c12_inplace_scale", "C12",
    [(U, """    scale = sqrt(x.shape[0])
    return x / scale
""", """    scale = sqrt(x.shape[0])
    return x.div_(scale) if kfac_approx == "reduce" else x / scale
""")],
    "kfac_approx='reduce' on a linear layer without bias and with vector inputs (its processed input is a view of the layer's input)",
    "the layer's input is scaled in place during the backward pass",
    '''
from h import *

torch.manual_seed(0)
model = nn.Sequential(nn.Linear(4, 3, bias=False))
opt = SINGD(model, T=1, kfac_approx="reduce")
x = torch.randn(6, 4)
before = x.clone()
model(x).pow(2).mean().backward()
check(torch.equal(x, before), "input modified")
''')

add(
    "c12_grad_inplace", "C12",
    [(U, """        # KFAC-reduce approximation
        g = reduce(g, "b ... d_out -> b d_out", "sum")

    return g * scaling""", """        # KFAC-reduce approximation
        g = reduce(g, "b ... d_out -> b d_out", "sum")

    return g.mul_(scaling) if kfac_approx == "reduce" else g * scaling""")],
    "kfac_approx='reduce' on a linear layer with vector inputs (no dimensions to reduce)",
    "the output gradient is scaled in place while it is back-propagated, which changes all gradients",
    '''
from h import *

torch.manual_seed(0)
model = nn.Sequential(nn.Linear(4, 3), nn.Tanh(), nn.Linear(3, 2))
x = torch.randn(6, 4)


def grads():
    model.zero_grad()
    model(x).pow(2).mean().backward()
    return [p.grad.clone() for p in model.parameters()]


ref = grads()
opt = SINGD(model, T=1, kfac_approx="reduce")
for a, b in zip(grads(), ref):
    check(torch.equal(a, b), "gradients changed by the optimizer")
''')

add(
    "c13_second_param", "C13",
    [(O, """            elif mod_trainable and warn_unsupported:
""", """            elif mod_trainable and warn_unsupported and len(mod_trainable) > 1:
""")],
    "an unsupported layer with a single trainable parameter (e.g. an embedding) and no explicit parameters",
    "no warning is raised although the parameter will not be trained",
    '''
from h import *

model = nn.Sequential(nn.Embedding(5, 4), nn.Linear(4, 3))
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    SINGD(model)
check(any("un-supported" in str(x.message) for x in w), "no warning")
''')

add(
    "c14_wrapper_params", "C14",
    [(O, """        if isinstance(model, (DP, DDP)):
""", """        if isinstance(model, (DP, DDP)) and params is None:
""")],
    "a data-parallel wrapper together with explicitly passed parameters",
    "data-parallel wrappers are accepted if parameters are passed explicitly",
    '''
from h import *

inner = nn.Linear(4, 3)
model = nn.DataParallel(inner)
try:
    SINGD(model, list(inner.parameters()))
except TypeError:
    sys.exit(0)
fail("DataParallel accepted")
''')

add(
    "c14_group_average", "C14",
    [(O, """            if group["loss_average"] not in self.SUPPORTED_LOSS_AVERAGE:
""", """            if (group["loss_average"] or "batch") not in self.SUPPORTED_LOSS_AVERAGE:
""")],
    "a false but unsupported loss average such as False, 0 or an empty string",
    "unsupported loss averages that are false in a boolean context are accepted",
    '''
from h import *

for bad in (False, "", 0):
    try:
        SINGD(nn.Linear(4, 3), loss_average=bad)
    except ValueError:
        continue
    fail(f"loss_average={bad!r} accepted")
''')

add(
    "c15_scale_leak", "C15",
    [(O, """        drop = [t for t in self._grad_scales if t < self.steps - 1]
""", """        scales = self._grad_scales
        drop = [t for t in scales if t < self.steps - 1 and scales[t] == 1.0]
""")],
    "training with gradient scaling for many steps",
    "gradient scales of all past steps are kept, so that the state grows with the number of steps",
    '''
from h import *

torch.manual_seed(0)
model = nn.Linear(2, 2)
opt = SINGD(model, T=1, init_grad_scale=4.0)
size = []
import pickle

for _ in range(40):
    model.zero_grad()
    (4 * model(torch.randn(3, 2)).pow(2).mean()).backward()
    opt.set_current_grad_scale(4.0)
    opt.step()
    size.append(len(pickle.dumps(opt.state_dict())))
check(size[-1] - size[4] < 50, f"state grows: {size[4]} -> {size[-1]}")
''')

add(
    "c15_keep_inputs", "C15",
    [(O, """            new_m_C.add_(self.m_Cs[module_name], alpha=alpha1)
            new_m_K.add_(self.m_Ks[module_name], alpha=alpha1)
            self.m_Cs[module_name] = new_m_C
            self.m_Ks[module_name] = new_m_K
""", """            new_m_C.add_(self.m_Cs[module_name], alpha=alpha1)
            new_m_K.add_(self.m_Ks[module_name], alpha=alpha1)
        self.m_Cs[module_name] = new_m_C
        self.m_Ks[module_name] = new_m_K
""")],
    "training without Riemannian momentum (alpha1=0 or kfac_like)",
    "momentum matrices are kept although no momentum is used, which doubles the pre-conditioner's memory",
    '''
from h import *

torch.manual_seed(0)
model = nn.Linear(20, 20)
opt = SINGD(model, T=1, alpha1=0.0, momentum=0.0)


def numel(obj, seen):
    if isinstance(obj, torch.Tensor):
        seen[obj.data_ptr()] = obj.numel()
    elif isinstance(obj, dict):
        [numel(v, seen) for v in obj.values()]
    elif isinstance(obj, (list, tuple)):
        [numel(v, seen) for v in obj]
    elif hasattr(obj, "named_tensors"):
        [numel(t, seen) for _, t in obj.named_tensors()]
    return sum(seen.values())


for _ in range(2):
    model.zero_grad()
    model(torch.randn(3, 20)).pow(2).mean().backward()
    opt.step()
n = numel(opt.state_dict(), {})
check(n <= 21**2 + 20**2 + 10, f"state has {n} entries")
''')

add(
    "c16_dense_trace", "C16",
    [("structures/triltoeplitz.py", """            conv_input = pad(other._lower_diags, (dim - 1, 0)).unsqueeze(0)
            conv_weight = col.flip(0).unsqueeze(0).unsqueeze(0)
            mat_column = conv1d(conv_input, conv_weight).squeeze(0)
            return TrilToeplitzMatrix(mat_column)
""", """            mat_column = self.to_dense() @ other._lower_diags
            return TrilToeplitzMatrix(mat_column)
"""), 
    ],
    "lower-triangular Toeplitz factors of larger dimension",
    "each product of two Toeplitz factors builds the dense matrix",
    '''
from h import *
from torch.utils._python_dispatch import TorchDispatchMode
from torch.utils._pytree import tree_leaves
from singd.structures.triltoeplitz import TrilToeplitzMatrix as M

big = [0]


class Mode(TorchDispatchMode):
    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        out = func(*args, **(kwargs or {}))
        for t in tree_leaves(out):
            if isinstance(t, torch.Tensor):
                big[0] = max(big[0], t.untyped_storage().nbytes() // t.element_size())
        return out


n = 200
a, b = M(torch.randn(n)), M(torch.randn(n))
with Mode():
    c = a @ b
close(c.to_dense(), a.to_dense() @ b.to_dense(), "product", 1e-3)
check(big[0] < n * n, f"product allocated {big[0]} entries")
''')

add(
    "c16_inverse_scale", "C16",
    [(O, """        new_m_K.diag_add_(-1.0).mul_(scale)

        # step for m_C""", """        new_m_K.diag_add_(-1.0)
        new_m_K.mul_(scale)
        if normalize_lr_cov and dim_K == 1:
            # scalar factors can be normalized exactly
            new_m_K.mul_(1.0 / max(1.0, matrix_norm(new_m_K.to_dense(), 2).item()))

        # step for m_C"""), (O, "from torch.optim import Optimizer\n", "from torch.linalg import matrix_norm\nfrom torch.optim import Optimizer\n")],
    "normalize_lr_cov and a layer with one input and no bias",
    "a singular value decomposition is computed during the update (and the momentum is changed)",
    '''
from h import *
from torch.utils._python_dispatch import TorchDispatchMode

names = set()


class Mode(TorchDispatchMode):
    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        names.add(func.__name__)
        return func(*args, **(kwargs or {}))


torch.manual_seed(0)
model = nn.Linear(1, 3, bias=False)
opt = SINGD(model, T=1, normalize_lr_cov=True, lr_cov=0.1)
for _ in range(2):
    with Mode():
        model.zero_grad()
        model(torch.randn(3, 1)).pow(2).mean().backward()
        opt.step()
bad = [n for n in names if any(k in n for k in ("svd", "inv", "solve", "eig", "qr", "chol", "lu_"))]
check(not bad, f"operations {bad}")
''')

add(
    "c18_shared_scales", "C18",
    [(O, """        self._grad_scales: Dict[int, float] = {-1: init_grad_scale}
""", """        self._grad_scales[-1] = init_grad_scale
"""), (O, """    _step_supports_amp_scaling = True  # do not modify this name (PyTorch convention)!
""", """    _step_supports_amp_scaling = True  # do not modify this name (PyTorch convention)!
    _grad_scales: Dict[int, float] = {}
""")],
    "two optimizers that are used in an interleaved way with different gradient scales",
    "optimizers share the stored gradient scales",
    '''
from h import *

torch.manual_seed(0)


def make():
    torch.manual_seed(1)
    m = nn.Linear(4, 3)
    return m, SINGD(m, T=1, lr_cov=0.1, init_grad_scale=2.0)


def step(m, o, i, s):
    x, y = torch.full((5, 4), 0.1 * i) + torch.arange(20).reshape(5, 4) / 20, torch.ones(5, 3)
    m.zero_grad()
    (s * (m(x) - y).pow(2).mean()).backward()
    o.set_current_grad_scale(s)
    try:
        o.step()
    except KeyError:
        fail("scale of another optimizer's step removed")


m1, o1 = make()
for i in range(3):
    step(m1, o1, i, 2.0)
m2, o2 = make()
m3, o3 = make()
for i in range(3):
    step(m2, o2, i, 2.0)
    step(m3, o3, i, 64.0)
for p, q in zip(m1.parameters(), m2.parameters()):
    check(torch.equal(p, q), "another optimizer changed the result")
''')

add(
    "c20_damped_trace", "C20",
    [(O, """        new_m_C.add_(C_tC, alpha=damping * (1.0 if kfac_like else K_tK.average_trace()))
""", """        new_m_C.add_(C_tC, alpha=damping * K_tK.average_trace())
""")],
    "kfac_like training in which K^T K moves away from the identity",
    "the damping of C is scaled by the trace of K^T K also for the KFAC-like update, so C C^T does not approach the inverse damped curvature",
    '''
from h import *

torch.manual_seed(0)
m = nn.Linear(4, 3, bias=False)
o = SINGD(m, lr=0.0, T=1, lr_cov=0.1, kfac_like=True, alpha1=0.0, damping=5.0, loss_average=None)
x, g = 2 * torch.randn(8, 4), torch.randn(8, 3)
for _ in range(400):
    m.zero_grad()
    (m(x) * g).sum().backward()
    o.step()
C = o.Cs[""].to_dense().double()
target = torch.linalg.inv(g.double().T @ g.double() + 5.0 * torch.eye(3).double())
close(C @ C.T, target, "C C^T", 5e-2)
''')
