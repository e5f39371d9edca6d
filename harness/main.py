"""Entry point of every check: main.py <property> quick|thorough."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import env  # noqa: E402

CHECKS = {
    'P01': 'p_sched', 'P02': 'p_sched', 'P03': 'p_sched', 'P04': 'p_sched', 'P05': 'p_sched', 'P06': 'p_sched',
    'P07': 'p_timeline', 'P08': 'p_zones', 'P09': 'p_supply', 'P10': 'p_validate', 'P11': 'p_genome', 'P12': 'p_evolve', 'P13': 'p_restruct',
    'P14': 'p_graph', 'P15': 'p_graph', 'P16': 'p_store', 'P17': 'p_table', 'P18': 'p_rank', 'P19': 'p_pure', 'P20': 'p_feasible',
    'P21': 'p_pipeline', 'P22': 'p_input', 'P23': 'p_blocks', 'P24': 'p_measures', 'P25': 'p_search', 'P26': 'p_roads', 'P27': 'p_gen', 'P28': 'p_hybrid', 'P29': 'p_agency',
}


def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else 'quick')
    try:
        env.load()
        import core
        run = core.Run(pid, tier)
        importlib.import_module(CHECKS[pid]).check(run)
        rc = run.finish()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == '__main__':
    main()
