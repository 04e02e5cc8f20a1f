"""shared driver for the checks that judge one record per case of harness/h_prim.c"""
import concurrent.futures as cf
import vlib


def h(s):
    return bytes.fromhex(s)


def drive(c, plan, judges, exe=None, small=400, args=(), per_case=20.0, tally=()):
    """plan: [(mode, quick, thorough)]; judges[mode](rec) -> (violations [(key, text)], distinct key or None, sample or None);
    tally: record fields to add up in the evidence"""
    exe = exe or vlib.build('asan', 'h_prim')
    with cf.ProcessPoolExecutor(vlib.JOBS) as ex:
        for mode, q, t in plan:
            cases = vlib.run_cases(exe, mode, c.seed, c.n(q, t), args=args, per_case=per_case)
            todo = [(cs, cs.recs[-1]) for cs in cases if not c.case_crash(cs, exe, args) and cs.recs]
            for (cs, r), (viol, key, sample) in zip(todo, ex.map(judges[mode], [r for _, r in todo], chunksize=8)):
                c.eval((mode, key) if key is not None else None)
                for name in tally:
                    c.extra[name] = c.extra.get(name, 0) + r.get(name, 0)
                for k, text in viol:
                    c.violation(f'{mode}:{k}', text, dict(c.replay_cmd(cs, exe, args), record=r if len(str(r)) < 5000 else None))
                if sample and not viol and len(str(sample)) < small:
                    c.sample(sample)
