"""run.py PROPERTY OUTDIR SEED TIER: run the library in /repo and write traces (one ndjson file per TLC run)."""
import sys, random, importlib, time, json, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import traceback
from lib import Out, Enough
MOD = {'C22': 'h_plots', 'C23': 'h_plots', 'C24': 'h_folders', 'C20': 'h_frames', 'C21': 'h_descent', 'C14': 'h_options', 'C15': 'h_graph', 'C16': 'h_graph', 'C12': 'h_runs', 'C13': 'h_runs', 'C04': 'h_pauli', 'C05': 'h_pauli', 'C25': 'h_pauli', 'C26': 'h_closure', 'C27': 'h_report', 'C28': 'h_bch', 'C01': 'h_static', 'C02': 'h_static', 'C03': 'h_static', 'C06': 'h_layers', 'C07': 'h_layers', 'C08': 'h_layers', 'C09': 'h_layers', 'C10': 'h_layers', 'C11': 'h_layers', 'C17': 'h_layers',
       'C18': 'h_layers', 'C19': 'h_layers'}


def main():
    pid, outdir, seed, tier = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
    t0 = time.time()
    out = Out(outdir)
    crash = ''
    shard = int(os.environ.get('VERIF_SHARD', '0'))
    rng = random.Random('%s/%d' % (pid, seed) + ('/%d' % shard if shard else ''))
    try:
        mod = importlib.import_module(MOD[pid])
        getattr(mod, pid.lower())(out, rng, tier)
        if shard == 0:
            table = getattr(mod, 'SELFTEST', {})
            out.selftest(rng, table.get(pid, table.get('*', {})))
    except Enough:
        pass
    except Exception as e:
        # a failure inside the library outside of a recorded call (importing it, reading one of its objects) is the library's
        if not any('/oranssi/' in f.filename for f in traceback.extract_tb(e.__traceback__)):
            raise
        crash = traceback.format_exc()
    out.write()
    with open(os.path.join(outdir, 'harness.json'), 'w') as f:
        json.dump({'crash': crash, 'wall': time.time() - t0, 'traces': {g: len(v) for g, v in out.groups.items()},
                   'events': {g: sum(len(x['ev']) for x in v) for g, v in out.groups.items()}}, f)


main()
