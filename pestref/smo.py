"""Reference backward kernels and Metropolis-Hastings step; draws are arguments (read by the analysis, never run)."""
import numpy as np
from pestref.flt import systematic, normw


def trans(model, pa, ptraj, pind, ft, find, ut, yt, tt, ci):
    return model.logp_xnext_full(part=pa.part, past_trajs=ptraj, pind=pind, future_trajs=ft, find=find, ut=ut, yt=yt,
                                 tt=tt, cur_ind=ci)


def full_one(model, pa, ptraj, pind, ft, j, ut, yt, tt, ci, u):
    """index for future trajectory j"""
    f = j * np.ones(len(pa.w), dtype=int)
    w = normw(pa.w + trans(model, pa, ptraj, pind, ft, f, ut, yt, tt, ci))
    return systematic(w, 1, u)[0]


def propose(w, n, u, perm):
    return systematic(normw(w), n, u)[perm]


def at(model, pa, ptraj, pind, ft, ind, find, ut, yt, tt, ci):
    return model.logp_xnext_full(part=pa.part[ind], past_trajs=ptraj, pind=pind[ind], future_trajs=ft, find=find, ut=ut,
                                 yt=yt, tt=tt, cur_ind=ci)


def accept(u, logr):
    return np.log(u) < logr


def metropolis(u, new, old):
    return np.log(u) < np.minimum(new - old, 0.0)


def pick(c, a, b):
    return np.where(c, a, b)


def pickrows(c, a, b):
    return np.where(c[:, None], a, b)


def compress(mask, v):
    return v[mask]


def neg(mask):
    return ~mask


def arange(n):
    return np.arange(n)


def put(res, ind, v):
    r = np.copy(res)
    r[ind] = v
    return r


def zeros(n):
    return np.zeros(n, dtype=int)


def mc(model, part, ptraj, pp, pc, ft, find, ut, yt, tt, ci, reduced, u):
    """one Metropolis-Hastings step; u: uniform per trajectory -> new particles, acceptance"""
    n = len(part)
    if ptraj is not None:
        last = ptraj[-1]
        hist = ptraj[:-1]
        cur = model.cond_predict_single_step(part=np.copy(last.pa.part[pc]), past_trajs=hist, pind=last.ancestors[pc],
                                             future_parts=part, find=np.arange(n), ut=ut, yt=yt, tt=tt, cur_ind=ci - 1)
    else:
        cur = model.cond_sampled_initial(part, tt[ci])
    if reduced:
        if ptraj is not None:
            v = model.sample_process_noise_full(ptraj=ptraj, ancestors=pp, ut=ut[:ci], tt=tt[:ci])
            prop = np.copy(ptraj[-1].pa.part[pp])
            model.update_full(particles=prop, traj=ptraj, uvec=ut[:ci], yvec=yt[:ci], tvec=tt[:ci], ancestors=pp, noise=v)
        else:
            prop = model.create_initial_estimate(n)
        ratio = 0.0
    else:
        prop = model.propose_smooth(ptraj=ptraj, anc=pp, future_trajs=ft, find=find, yt=yt, ut=ut, tt=tt, cur_ind=ci)
        q1 = model.logp_proposal(prop_part=prop, ptraj=ptraj, anc=pp, future_trajs=ft, find=find, yt=yt, ut=ut, tt=tt,
                                 cur_ind=ci)
        q0 = model.logp_proposal(prop_part=cur, ptraj=ptraj, anc=pc, future_trajs=ft, find=find, yt=yt, ut=ut, tt=tt,
                                 cur_ind=ci)
        if ptraj is not None:
            last = ptraj[-1]
            hist = ptraj[:-1]
            p1 = model.logp_xnext_singlestep(part=last.pa.part[pp], past_trajs=hist, pind=last.ancestors[pp],
                                             future_parts=prop, find=np.arange(n), ut=ut, yt=yt, tt=tt, cur_ind=ci - 1)
            p0 = model.logp_xnext_singlestep(part=last.pa.part[pc], past_trajs=hist, pind=last.ancestors[pc],
                                             future_parts=cur, find=np.arange(n), ut=ut, yt=yt, tt=tt, cur_ind=ci - 1)
        else:
            p1 = model.eval_logp_x0(prop, tt[0])
            p0 = model.eval_logp_x0(cur, tt[0])
        ratio = p1 - p0 + q0 - q1
    new = np.copy(prop)
    old = np.copy(cur)
    if yt[ci] is not None:
        ratio = ratio + model.measure_full(particles=new, traj=ptraj, uvec=ut[:ci + 1], yvec=yt[:ci + 1],
                                           tvec=tt[:ci + 1], ancestors=pp)
        ratio = ratio - model.measure_full(particles=old, traj=ptraj, uvec=ut[:ci + 1], yvec=yt[:ci + 1],
                                           tvec=tt[:ci + 1], ancestors=pc)
    if ft is not None:
        ratio = ratio + model.logp_xnext_full(part=new, past_trajs=ptraj, pind=pp, future_trajs=ft, find=find, ut=ut,
                                              yt=yt, tt=tt, cur_ind=ci)
        ratio = ratio - model.logp_xnext_full(part=old, past_trajs=ptraj, pind=pc, future_trajs=ft, find=find, ut=ut,
                                              yt=yt, tt=tt, cur_ind=ci)
    acc = np.log(u) < ratio
    return np.where(acc[:, None], new, old), acc
