"""Messages whose column data cover every layout of the standard."""
import itertools

from . import gen, kvnspec


def attitude_cases(ctx, tag, states=2):
    m = ctx.models
    for at in m.AttitudeTypeType:
        t = at.value.upper()
        quats = list(m.QuaternionTypeType) if t.startswith("QUAT") else [None]
        seqs = list(m.RotseqType) if t.startswith("EUL") or t.endswith("RATE") else [None]
        for q, s in itertools.product(quats, seqs):
            yield at, t, q, s


def aem(ctx, tag, at, t, q, s, states=2, segments=1):
    m = ctx.models
    key = f"{ctx.seed}/{tag}/Aem/{at.name}/{q.name if q else None}/{s.name if s else None}"
    g = gen.Gen(m, key, p=0.3, comments=False)
    o = g.make(m.Aem)
    o.body.segment = o.body.segment[:1]
    sg = o.body.segment[0]
    sg.metadata.attitude_type, sg.metadata.quaternion_type, sg.metadata.euler_rot_seq = at, q, s
    sg.data.attitude_state = [g.att_state(m.AttitudeStateType(), t, sg.metadata) for _ in range(states)]
    return key, "Aem", o


def all_columns(ctx, tag):
    m = ctx.models
    for at, t, q, s in attitude_cases(ctx, tag):
        yield aem(ctx, tag, at, t, q, s)
    # segments of different attitude types in one message
    g = gen.Gen(m, f"{ctx.seed}/{tag}/mixed", p=0.5)
    cs = list(attitude_cases(ctx, tag))
    for i in range(ctx.n(60, 300)):
        base = None
        for c in g.r.sample(cs, 4):
            _, _, o = aem(ctx, f"{tag}/{i}", *c, states=g.r.randint(1, 3))
            if base is None:
                base = o
            else:
                base.body.segment += o.body.segment
        yield f"{ctx.seed}/{tag}/mixed/{i}", "Aem", base
    # observables
    import dataclasses

    for f in dataclasses.fields(m.TrackingDataObservationType):
        if f.name == "epoch":
            continue
        for i in range(ctx.n(2, 10)):
            key = f"{ctx.seed}/{tag}/Tdm/{f.name}/{i}"
            g = gen.Gen(m, key, p=0.3)
            o = g.make(m.Tdm)
            t = gen.base_type(gen.hints(m.TrackingDataObservationType)[f.name])
            for sg in o.body.segment:
                sg.data.observation = [
                    m.TrackingDataObservationType(epoch=x.epoch, **{f.name: g.make(t) if dataclasses.is_dataclass(t) else g.leaf(t, f)})
                    for x in sg.data.observation
                ]
            yield key, "Tdm", o
    # accelerations x covariances x frames x comments
    for acc, ncov, frame, com in itertools.product((False, True, "mixed"), (0, 1, 3), (False, True, "mixed"), (0, 1, 2)):
        for i in range(ctx.n(1, 5)):
            key = f"{ctx.seed}/{tag}/Oem/{acc}/{ncov}/{frame}/{com}/{i}"
            g = gen.Gen(m, key, p=1.0, maxlist=3)
            o = g.make(m.Oem)
            for sg in o.body.segment:
                for j, sv in enumerate(sg.data.state_vector):
                    if acc is False or (acc == "mixed" and j % 2):
                        sv.x_ddot = sv.y_ddot = sv.z_ddot = None
                cov = [g.make(m.OemCovarianceMatrixType) for _ in range(ncov)]
                for j, c in enumerate(cov):
                    c.comment = [f"cov {j} {k} [km]" for k in range(com)]
                    if frame is False or (frame == "mixed" and j % 2):
                        c.cov_ref_frame = None
                sg.data.covariance_matrix = cov
            yield key, "Oem", o
