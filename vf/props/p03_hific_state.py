"""P03: freezing, train/eval switching and device modes of the image codec behave as a state machine."""
import hypothesis.strategies as st

from ..core import Info, Prop, ensure, equal, raises, rnd, close
from ..gen import fixed, ints, pick, seeds
from ..models import make_hific

PROP = Prop(
    "P03",
    "cases = call histories over {freeze encoder, freeze bottleneck, train, eval, training step, switch device mode, invalid "
    "switch, forward, compress, rebuild tables, collect parameters} from every construction option; oracle = a five-variable model "
    "of the state; non-trivial = a freeze or a device switch followed by another operation",
    preload=lambda: __import__("neuralcompression.models"),
)
BOTTLENECK = ("hyper_bottleneck", "hyper_synthesis_mean", "hyper_synthesis_scale", "hyper_analysis", "latent_bottleneck")
OPS = ["freeze_encoder", "freeze_bottleneck", "train", "train", "eval", "train_false", "step", "step", "to_compress", "to_forward", "bad_device", "forward", "compress", "update", "collect"]


def cases():
    return fixed(fe=st.booleans(), fb=st.booleans(), ops=st.lists(pick(*OPS), min_size=2, max_size=9), seed=seeds, wseed=ints(0, 20))


@PROP.sub("history", cases, quick=160, thorough=2500, shards=8)
def history(c):
    import torch

    cfg = dict(cin=3, lat=3, hyp=2, res=0, wseed=c["wseed"], ge=2.0, ga=1.5, gs=1.0, sigma=1.0)
    kw = {}
    if c["fe"]:
        kw["freeze_encoder"] = True
    if c["fb"]:
        kw["freeze_bottleneck"] = True
    m = make_hific(cfg, **kw)
    x = rnd((1, 3, 64, 64), c["seed"], "uniform")
    s = dict(enc=c["fe"], bott=c["fb"], mode=False, dev="forward")

    def groups():
        enc, bott, rest = [], [], []
        for n, p in m.named_parameters():
            top = n.split(".")[0]
            (enc if top == "encoder" else bott if top in BOTTLENECK else rest).append((n, p))
        return enc, bott, rest

    def snapshot():
        return {n: p.detach().clone() for n, p in m.named_parameters()}

    def check(when):
        enc, bott, rest = groups()
        ensure(m.frozen_encoder == s["enc"] and m.frozen_bottleneck == s["bott"], f"{when}: frozen flags {m.frozen_encoder}/{m.frozen_bottleneck}, expected {s['enc']}/{s['bott']}")
        ensure(m.device_setting == s["dev"], f"{when}: device setting {m.device_setting}, expected {s['dev']}")
        ensure(m.training == s["mode"], f"{when}: training flag {m.training}")
        for n, p in enc:
            ensure(p.requires_grad == (not s["enc"]), f"{when}: {n} trainable={p.requires_grad}, encoder frozen={s['enc']}")
        for n, p in bott:
            ensure(p.requires_grad == (not s["bott"]), f"{when}: {n} trainable={p.requires_grad}, bottleneck frozen={s['bott']}")
        for n, p in rest:
            ensure(p.requires_grad, f"{when}: {n} lost its gradient")
        for mod in m.encoder.modules():
            ensure(mod.training == (s["mode"] and not s["enc"]), f"{when}: encoder training={mod.training}")
        for b in BOTTLENECK:
            for mod in getattr(m, b).modules():
                ensure(mod.training == (s["mode"] and not s["bott"]), f"{when}: {b} training={mod.training}")
        for mod in m.decoder.modules():
            ensure(mod.training == s["mode"], f"{when}: decoder training={mod.training}")
        model_p, quant_p = m.collect_parameters()
        want_q = {id(p) for n, p in m.named_parameters() if n.endswith(".quantiles") and p.requires_grad}
        want_m = {id(p) for n, p in m.named_parameters() if not n.endswith(".quantiles") and p.requires_grad}
        ensure(len(model_p) == len(want_m) and {id(p) for p in model_p} == want_m, f"{when}: model parameter group")
        ensure(len(quant_p) == len(want_q) and {id(p) for p in quant_p} == want_q, f"{when}: quantile parameter group")

    check("construction")
    done = []
    for op in c["ops"]:
        done.append(op)
        when = " -> ".join(done)
        if op == "freeze_encoder":
            m.freeze_encoder()
            s["enc"] = True
        elif op == "freeze_bottleneck":
            m.freeze_bottleneck()
            s["bott"] = True
        elif op == "train":
            r = m.train()
            ensure(r is m, "train() does not return the model")
            s["mode"] = True
        elif op == "eval":
            r = m.eval()
            ensure(r is m, "eval() does not return the model")
            s["mode"] = False
        elif op == "train_false":
            m.train(False)
            s["mode"] = False
        elif op == "to_compress":
            m.update_tensor_devices("compress")
            s["dev"] = "compress"
        elif op == "to_forward":
            m.update_tensor_devices("forward")
            s["dev"] = "forward"
        elif op == "bad_device":
            raises(ValueError, lambda: m.update_tensor_devices("decompress"), "unknown target operation")
        elif op == "update":
            m.update(force=True)
        elif op == "collect":
            m.collect_parameters()
        elif op == "compress":
            # (tables follow the weights only after update)
            m.update(force=True)
            with torch.no_grad():
                y = m.decompress(m.compress(x))
            ensure(tuple(y.shape) == tuple(x.shape), f"{when}: shape")
        elif op == "forward":
            if s["dev"] == "forward":
                with torch.no_grad():
                    m(x)
            else:
                raises(RuntimeError, lambda: m(x), f"{when}: forward while set up for compression")
        elif op == "step":
            if s["dev"] != "forward":
                continue
            before = snapshot()
            mp, qp = m.collect_parameters()
            opt = torch.optim.SGD(mp, lr=0.05)
            opt.zero_grad()
            o = m(x)
            loss = o.image.square().mean() - torch.log(o.latent_likelihoods).mean() - torch.log(o.hyper_latent_likelihoods).mean()
            loss.backward()
            opt.step()
            after = snapshot()
            changed = {n for n in before if not torch.equal(before[n], after[n])}
            tops = {n.split(".")[0] for n in changed}
            if s["enc"]:
                ensure("encoder" not in tops, f"{when}: a training step changed the frozen encoder")
            elif s["mode"]:
                ensure("encoder" in tops, f"{when}: a training step did not reach the encoder")
            if s["bott"]:
                ensure(not tops & set(BOTTLENECK), f"{when}: a training step changed the frozen bottleneck")
            ensure("decoder" in tops, f"{when}: a training step did not reach the decoder")
            ensure(not any(n.endswith(".quantiles") for n in changed), f"{when}: quantiles moved without their optimiser")
            m.zero_grad()
        check(when)
    ops = set(c["ops"])
    return Info(len(c["ops"]) >= 2 and bool(ops & {"freeze_encoder", "freeze_bottleneck", "to_compress"} or c["fe"] or c["fb"]), *sorted(ops))


@PROP.sub("frozen_rate", lambda: fixed(seed=seeds, wseed=ints(0, 20)), quick=8, thorough=40, shards=4,
          rule="a frozen bottleneck in training mode quantises (evaluated likelihoods, no noise)")
def frozen_rate(c):
    import torch

    cfg = dict(cin=3, lat=3, hyp=2, res=0, wseed=c["wseed"], ge=2.0, ga=1.5, gs=1.0, sigma=1.0)
    m = make_hific(cfg, freeze_encoder=True, freeze_bottleneck=True)
    x = rnd((1, 3, 64, 64), c["seed"], "uniform")
    with torch.no_grad():
        e = m(x)
    m.train()
    torch.manual_seed(c["seed"])
    with torch.no_grad():
        t = m(x)
    close(t.latent_likelihoods, e.latent_likelihoods, 1e-5, 1e-5, "training noise in a frozen bottleneck (latent)")
    close(t.hyper_latent_likelihoods, e.hyper_latent_likelihoods, 1e-5, 1e-5, "training noise in a frozen bottleneck (hyper latent)")
    return Info(True)


PARTS = ("encoder", "decoder", "hyper_bottleneck", "hyper_analysis", "hyper_synthesis_mean", "hyper_synthesis_scale")


@PROP.sub("devices", lambda: fixed(seed=seeds, wseed=ints(0, 20), off=st.lists(pick(*PARTS), max_size=2, unique=True), fe=st.booleans(), fb=st.booleans(), mode=pick("forward", "compress")),
          quick=40, thorough=400, shards=4, examples=[dict(seed=1, wseed=1, off=[n], fe=fz, fb=fz, mode="forward") for n in PARTS for fz in (False, True)],
          rule="layers on another device (torch's meta device stands in for a GPU): coding refuses unless every layer the entropy coder depends on is on the CPU")
def devices(c):
    import torch

    cfg = dict(cin=3, lat=3, hyp=2, res=0, wseed=c["wseed"], ge=2.0, ga=1.5, gs=1.0, sigma=1.0)
    m = make_hific(cfg, freeze_encoder=c["fe"], freeze_bottleneck=c["fb"])
    x = rnd((1, 3, 64, 64), c["seed"], "uniform")
    off = sorted(c["off"])
    m.update_tensor_devices(c["mode"])
    with torch.no_grad():
        comp = m.compress(x)
        for n in off:
            getattr(m, n).to("meta")
        for force in (None, True, False):
            kw = {} if force is None else dict(force_cpu=force)
            if off and force is not False:
                raises(ValueError, lambda: m.compress(x, **kw), f"compress with {off} on another device, force_cpu={force}")
                raises(ValueError, lambda: m.decompress(comp, **kw), f"decompress with {off} on another device, force_cpu={force}")
            elif any(n.startswith("hyper") for n in off):
                raises(ValueError, lambda: m.compress(x, **kw), f"partial-device compress with {off} on another device")
                raises(ValueError, lambda: m.decompress(comp, **kw), f"partial-device decompress with {off} on another device")
            else:  # only transforms elsewhere: the entropy coder still works
                if "encoder" not in off:
                    again = m.compress(x, **kw)
                    ensure(again.latent_strings == comp.latent_strings and again.hyper_latent_strings == comp.hyper_latent_strings, f"other strings with {off} on another device")
                y = m.decompress(comp, **kw)
                ensure(tuple(y.shape) == tuple(x.shape), f"decoded shape with {off} on another device: {tuple(y.shape)}")
                if "decoder" in off:
                    ensure(y.device.type == "meta", "the decoder did not run on its own device")
    return Info(bool(off), *off)
