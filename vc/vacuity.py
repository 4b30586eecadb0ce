"""Vacuity guard: for each function under contract at least one path can be completed, i.e. the verifier cannot derive a
contradiction from its precondition, its branch conditions and the contracts of the functions it calls."""
import emit
def run(units, outdir, jobs):
    res, st = emit.check_units(units, outdir, jobs=jobs, rlimit=5, vacuity=True)
    bad = []
    for u in units:
        r = res[u.key]
        failed = {f['path'] for f in r['fail'] if f['line'].strip() == 'assert(1int == 2int);' or f['kind'] in ('rlimit', '?')}
        if r['status'] != 'error' and not failed: bad.append(u.key)
    return bad, st
