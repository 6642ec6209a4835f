"""Per property: level, how it is decided (DESIGN.md), what is bounded or assumed (MANIFEST level_note).
`python3 tools/notes.py` regenerates tools/levels.json, DESIGN.md and MANIFEST.json."""
import json
import os
import subprocess
H = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(H)
N = {}


def note(i, level, how, spec, bounded="nothing", assumed=""):
    N[i] = dict(level=level, how=how, spec=spec, bounded=bounded, assumed=assumed)


ST = "every BNP and finite weighting model"
note("C01", "proof", "representation invariant",
     "Invariant of each weighting model (0<=v<=1, w_j = v_j prod_{l<j}(1-v_l), so w>=0 and sum w <= 1; finite models sum to 1): established by `random` (prior and fitted), preserved by `complete` and `tail` "
     "from an arbitrary state that satisfies it, untouched by `fit`/`reset` (C06), so it holds after every call history by induction over the calls. `random`'s and `tail`'s loops carry it as loop invariant; "
     "the sum is bounded by the stick product lemma sum_{j<m} w_j = 1 - prod_{j<m}(1-v_j) (proved by induction inside each obligation). `get_normalized_weights` and the cumulative form are separate contracts.")
note("C02", "proof", "two-state postcondition",
     "`complete(n)` from an arbitrary state of m weights: length max(m,n), returned = stored, first m weights, sticks and the shared latent variables equal to the old ones (frame), empty structure allowed, non-integer size "
     "raises TypeError before any write. Also: a fitted state, where the continuation must use prior law.")
note("C03", "proof", "loop invariant + guard",
     "`tail(x)` for arbitrary x in [0,1) and arbitrary state: at exit the guard is false, i.e. the stored running total reaches x; kept prefix; out-of-range x raises ValueError with the state and the generator untouched.")
note("C04", "proof", "ghost draws: law of each fresh variate",
     "Every stick of an unfitted draw is, as a term, a fresh variate (own index in its draw record, so independent of the others) of the law named by the property with parameters equal to the stated ones for a symbolic j; tied sticks "
     "are the earlier stick under the stated event. `complete` continues with the same law and index (j from m), which is the 'same law at once or in parts' clause.")
note("C05", "proof", "as C04, with counts as sums over the assignments",
     "Beta-Bernoulli: the sweep over the change indicators is under contract of its own (each indicator j a Bernoulli variate whose probability is its full conditional given the nearest changes left, already updated, and right, not yet updated; the scanning loops are summarised by their least number of steps); its draws then use that contract. Beta-in-Dirichlet: the "
     "sweep over the urn is under a counting-loop invariant (every stick carries one of the values; stick i leaves its value and takes value j with log-weight log(number of others with j) + n_i log v_j + m_i log(1-v_j), or a new value "
     "with log a + log of the marginal likelihood, by Gumbel-max with own fresh noise; a new value comes from its own posterior; all else kept; every stick in turn). "
     "fit(d) with a symbolic d of symbolic length, then `random` with or without a size: number of weights, and each stick's law with n_j = sum_i [d_i=j], m_j = sum_i [d_i>j] as symbolic sums (hence order-free), prior law beyond the data.")
note("C06", "proof", "frame conditions",
     "`fit` after arbitrary earlier fit/draws then reads only d (all state a later `random` reads equals that of a fresh object fitted to d), `reset` likewise; stored weights and the caller's array unchanged; misuse raises.")
note("C07", "proof", "postcondition over the uniforms",
     "label j is returned for uniform u exactly when W_{j-1} <= u < W_j of the normalised cumulative weights (searchsorted's contract), one uniform per assignment, scalar form, weights unchanged; for each model class.")
note("C08", "proof", "postcondition",
     "`assignation_log_likelihood` = sum_i log w_{d_i} after extension (kept prefix), own and given d; `weighting_log_likelihood` = sum over sticks of the log Beta prior density (with the code's recovery of the sticks from the weights proved "
     "to be the inverse of stick breaking) plus the density of shared latents.")
note("C09", "proof", "postcondition", "`fit_variational(r)` for a symbolic K x N matrix (N=0 included): stored parameters equal the closed forms for a symbolic j; r unchanged.")
note("C10", "proof", "postcondition", "moments for an arbitrary fitted law (arbitrary parameters, not only those reachable) and symbolic index j, below, at and beyond the truncation; NotFittedError.")
note("C11", "proof", "postcondition", "each term equals the closed-form expectation as sums of digamma/loggamma over symbolic K and N; NotFittedError.")
note("C12", "proof", "ghost draws + closed form",
     "`_update_atoms` for symbolic N, D, K and assignments: for occupied j the covariance is a fresh inverse-Wishart(nu_n, psi_n) variate and the mean a fresh normal with that covariance / lambda_n, parameters of exactly the members' data; empty atoms, data, "
     "assignments, priors in the frame. `posterior_norm_invw_params` and `random_normal_invw` have their own contracts.")
note("C13", "proof", "ghost order of events + quantified postcondition",
     "`_update_weights`: refit with the current d, redraw, then one uniform per observation scaled by its own (new) weight, then `tail(1 - min u)`; lemma `no_admissible_component_missing`: afterwards any component with weight > some u is stored. `_update_d`: Gumbel-max over "
     "log-density masked by w_j > u_i, for symbolic i, j.")
note("C14", "proof", "loop invariant of the chain + immutability",
     "`fit_gibbs` with symbolic total_iter, burn_in, subsample_steps: number of steps, which are saved, the ceiling count, warm start adds. `_save_params` stores one consistent state, with the histories; a saved draw shares no mutable object with the live state "
     "(heap reachability after a further generic step).")
note("C15", "proof", "running maximum", "`fit_gibbs` keeps the arg-max state over the initial and all later states (loop summary of the update), `_update_map` strict improvement, its log-likelihood and its copies.")
note("C16", "proof", "non-interference", "a cold start from an arbitrary earlier state equals one from a fresh object: every field read later is overwritten; default priors are mean/cov/dimension of the new data, per mixture class, given ones kept.")
note("C17", "proof", "postcondition", "MAP/EAP densities at symbolic points as sums over components and saved draws, for all/one/several dims, component, periods; state unchanged.")
note("C18", "proof", "postcondition", "arg-max labels with the renumbering as order-preserving map, uncertainty, affinity as a fraction of draws; symmetric, in [0,1], unit diagonal.")
note("C19", "proof", "postcondition + simplex", "`_update_var_d`: proportionality to the expected log joint up to eps, positivity and unit sum for symbolic K, N, D.")
note("C20", "proof", "postcondition", "`_update_var_theta` closed forms for a symbolic responsibility matrix; the 0/1 case is an instance (same formula as C12's contract).")
note("C21", "proof", "postcondition", "each expectation term and `_calc_elbo`'s total (which terms, which signs) for symbolic K, N, D.")
note("C22", "proof", "loop invariant", "`fit_variational`: number of updates, order of the three updates, stop test on consecutive bounds, verdict flag overwritten; `_maximize_variational` order.")
note("C23", "proof", "postcondition", "as C17 for the Student-t / normal kernels with marginalisation by dimension.")
note("C24", "proof", "postcondition", "arg-max responsibilities, new points by the same expression as the fit, affinity.")
note("C25", "proof", "typestate", "refused before, accepted after, flags written by exactly the two fits, constructor of each class.")
note("C26", "proof", "relational", "each container yields the same observations as the array of its values, in fits and in each query; no aliasing, no write to the caller's object; other types refused.")
note("C27", "proof", "taint of variates", "Source reading of every contract that draws: the generator record of each variate reaching the state is the object's own, scipy (`random_state`) and sklearn included; parser of the seed; constructors.")
note("C28", "proof", "postcondition", "Gumbel-max as argmax of log-weight + own fresh standard Gumbel, impossible entries. Rejection sampling with the retry loop's invariant (every kept point with its own height below the target; each retry redraws exactly the rejected ones). k-means labels renumbered by first appearance, for arbitrary labels of the clustering.")
note("C29", "proof", "postcondition", "each helper equals the textbook formula for symbolic D; Ewens formula incl. alpha=0.")



def main():
    props = {}
    for line in open(os.path.join(ROOT, "properties.jsonl")):
        d = json.loads(line)
        props[d["id"]] = d
    exp = json.load(open(os.path.join(ROOT, "pyvc", "expected.json")))
    lv = {}
    for i, n in sorted(N.items()):
        k = sum(map(len, exp[i].values()))
        s = "contracts (%s) on the functions of the property, %d obligations, all discharged for all inputs and iterations" % (n["how"], k)
        s += "; bounded stand-in only: " + n["bounded"] if n["bounded"] != "nothing" else "; nothing rests on the bounded stand-in alone"
        if n["assumed"]:
            s += "; assumed: " + n["assumed"]
        lv[i] = {"level": n["level"], "note": s}
    json.dump(lv, open(os.path.join(H, "levels.json"), "w"), indent=1)
    t = open(os.path.join(H, "DESIGN.in")).read()
    out = []
    for i, n in sorted(N.items()):
        k = exp[i]
        out.append("**%s %s** (%s; %d contracts, %d obligations)  \n%s" % (i, props[i]["title"], n["how"], len(k), sum(map(len, k.values())), n["spec"])
                   + ("  \n*Bounded only:* %s." % n["bounded"] if n["bounded"] != "nothing" else "") + ("  \n*Assumed:* %s." % n["assumed"] if n["assumed"] else "") + "\n")
    t = t.replace("@@PROPS@@", "\n".join(out))
    t = t.replace("@@ASSUMED@@", "\n".join("* %s: %s." % (i, n["assumed"]) for i, n in sorted(N.items()) if n["assumed"]))
    b = ["* %s: %s" % (i, n["bounded"]) for i, n in sorted(N.items()) if n["bounded"] != "nothing"]
    t = t.replace("@@BOUNDED@@", ("Decided by concrete scenarios only (bounds: 1-400 observations, 1-4 dimensions, up to 18 sticks, laws tested by the recorded parameters of each variate, not statistically, except where noted):\n\n"
                                  + "\n".join(b)) if b else "None.")
    rows = ["| bug | property | needs | breaks | how |", "|---|---|---|---|---|"]
    how = json.load(open(os.path.join(H, "caught.json"))) if os.path.exists(os.path.join(H, "caught.json")) else {}
    for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
        m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
        rows.append("| %s | %s | %s | %s | %s |" % (d, m["property"], m["needs"], m["what_it_breaks"], how.get(d, "")))
    t = t.replace("@@SEEDS@@", "\n".join(rows))
    f = os.path.join(H, "results.json")
    res = json.load(open(f)) if os.path.exists(f) else {}
    t = t.replace("@@REFAC@@", res.get("refac", "")).replace("@@SEEDRUN@@", res.get("seeds", ""))
    t = t.replace("4 200 named", "%d named" % sum(len(v) for p in exp.values() for v in p.values()))
    open(os.path.join(ROOT, "DESIGN.md"), "w").write(t)
    subprocess.check_call(["python3", os.path.join(H, "mkmanifest.py")])


if __name__ == "__main__":
    main()
