#!/usr/bin/env python
"""Command line of the simulation checks (see DESIGN.md).

  check.py --property C03            run the check (VERIF_TIER, VERIF_SEED)
  check.py --replay FILE [--trace]   re-execute a replay file
  check.py --determinism C03 -n 40   run plans twice (other hash seed and worker layout), compare digests
  check.py --selftest                build/setup command
"""
import argparse
import json
import os
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED') or '1')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--budget', type=float)
    ap.add_argument('--workers', type=int)
    ap.add_argument('--worker', action='store_true')
    ap.add_argument('--start', type=int, default=0)
    ap.add_argument('--step', type=int, default=1)
    ap.add_argument('--base')
    ap.add_argument('--keep-going', action='store_true')
    ap.add_argument('--digests', action='store_true')
    ap.add_argument('--meta', action='store_true')
    ap.add_argument('--minimise')
    ap.add_argument('--replay')
    ap.add_argument('--plan', type=int)
    ap.add_argument('--trace', action='store_true')
    ap.add_argument('--determinism', action='store_true')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    args = ap.parse_args()
    from sim import runner

    if args.meta:
        from sim import kernel
        kernel.install()
        prop = runner.load_prop(args.property)
        print(json.dumps(dict(runs=prop.runs, budget=prop.budget, assumptions=prop.assumptions, rule=prop.rule,
                              state_measure=prop.state_measure, real=prop.real, stub=prop.stub)))
        return 0
    if args.plan is not None:
        from sim import kernel
        kernel.install()
        print(json.dumps(runner.make_plan(runner.load_prop(args.property), args.seed, args.plan, args.tier)))
        return 0
    if args.worker:
        runner.worker_main(args)
        return 0
    if args.minimise or args.replay:
        own = None
        if not args.base:
            own = args.base = tempfile.mkdtemp(prefix='vsim-', dir=runner.scratch_base())
        try:
            if args.minimise:
                args.file = args.minimise
                args.budget = args.budget or 60.0
                runner.minimise_main(args)
                return 0
            args.file = args.replay
            return runner.replay_main(args)
        finally:
            if own:
                import shutil
                shutil.rmtree(own, ignore_errors=True)
    if args.determinism:
        from sim import selftest
        return selftest.determinism(args.property, args.seed, args.runs or 64, args.tier)
    if args.selftest:
        from sim import selftest
        return selftest.setup()
    tier = args.tier if args.tier in ('quick', 'thorough') else 'quick'
    try:
        seed = int(args.seed)
    except ValueError:
        seed = 1
    return runner.check_main(args.property, tier, seed, runs=args.runs, budget=args.budget, workers=args.workers,
                             keep_evidence=not args.no_evidence)


if __name__ == '__main__':
    sys.exit(main())
