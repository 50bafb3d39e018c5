"""C32 mixing results and their files return exactly the saved fields."""
import os
import shutil
import tempfile

import numpy as np

from mon import dfg, gen, ref

RULE = ('random problems and save tables; the result object and file readers are '
        'asked in random orders, many times, and every pulse is compared with the '
        'table it came from; random histories of runs, parameters and reopenings.')
QUICK, THOROUGH = 500, 8000
MIN_CHECKS = 90000
BUDGET = 3000000
FILES = ['src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py',
         'src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py']


class Table:
    """Stands for a finished solver: what add_run and the processing read."""

    def __init__(self, rng, n, count):
        self.count = count
        size = count + int(rng.integers(0, 5))
        self.ysave = rng.normal(size=(size, 3 * n)) + 1j * rng.normal(size=(size, 3 * n))
        self.xsave = np.zeros(size, complex)
        self.nvar = 3 * n
        self.out = self


def problem(ctx, nlist=(8, 16, 30, 48)):
    rng = ctx.rng
    q = dfg.problem(rng, kinds=('glass', 'glass', 'PPLN', 'AgGaSe2'), nlist=nlist, domains=(1, 3))
    return q, dfg.build(ctx, q)


def check_pulse(ctx, p, AW, q, i, frep, clause):
    ctx.close(p.AW, AW, clause + '-field', rtol=1e-13)
    ctx.close(p.AT, ref.to_time(np.asarray(AW)), clause + '-time-field', rtol=1e-10)
    ctx.close(p.center_wavelength_nm, ref.C_NMPS / q.f[i], clause + '-colour', rtol=1e-12)
    ctx.close(p.time_window_ps, q.tw, clause + '-window', rtol=1e-12)
    ctx.close(p.NPTS, q.n, clause + '-points', rtol=0)
    ctx.close(p.frep_MHz, frep, clause + '-repetition-rate', rtol=1e-12)
    ctx.close(p.W_mks, q.W[i], clause + '-frequencies', rtol=1e-11)


def results(ctx):
    from pynlo.interactions.ThreeWaveMixing.DFG_integrand import dfg_results_interface
    rng = ctx.rng
    q, ob = problem(ctx)
    n = q.n
    count = int(rng.integers(1, 9)) if rng.random() < .95 else int(rng.integers(9, 1500))
    t = Table(rng, n, count)
    t.xsave[:count] = np.sort(rng.uniform(0, q.L, count))
    ctx.note(count=count, **dfg.describe(q))
    own = rng.random() < .5
    if own:
        fields = [t.ysave[:count, i * n:(i + 1) * n].copy() for i in range(3)]
        z = t.xsave[:count].copy()
        res = ctx.call(dfg_results_interface, ob, fields[0], fields[1], fields[2], z)
        want = [f.copy() for f in fields]
    else:
        raw = t.ysave.copy()
        res = ctx.call(ob.process_stepper_output, t)
        ctx.close(t.ysave, raw, 'solver-table-unchanged', rtol=0)
        t0 = q.ind[0][int(np.argmax(np.abs(q.in_p)))] / ref.C
        zz = t.xsave[:count].real[:, None]
        want = [raw[:count, i * n:(i + 1) * n] * np.exp(1j * (q.k[i] - q.W[i] * t0) * zz) for i in range(3)]
    tol = 0 if own else 1e-6
    ctx.close(res.n_saves, count, 'number-of-results', rtol=0)
    get = (res.get_pump, res.get_sgnl, res.get_idlr)
    for _ in range(min(4 * count + 4, 100)):
        i, j = int(rng.integers(3)), int(rng.integers(count))
        back = rng.random() < .2
        p = get[i](j - count if back else j)
        ctx.close(p.AW, want[i][j], 'result-field', rtol=tol)
        ctx.close(p.center_wavelength_nm, ref.C_NMPS / q.f[i], 'result-colour', rtol=1e-12)
        ctx.close(p.W_mks, q.W[i], 'result-frequencies', rtol=1e-11)
        ctx.close(p.NPTS, n, 'result-grid', rtol=0)
        ctx.close(p.time_window_ps, q.tw, 'result-grid', rtol=1e-12)
        ctx.close(complex(res.get_z(j)), complex(t.xsave[j]), 'result-position', rtol=0)
        if rng.random() < .3:                       # the caller plays with its pulse
            if rng.random() < .5:
                p.set_AW(p.AW * 3.)
            else:
                p.apply_phase_W(rng.normal(size=n))
        ctx.event('fields asked')
    ctx.raises(IndexError, 'beyond-results', get[int(rng.integers(3))], count + int(rng.integers(0, 4)))
    ctx.raises(IndexError, 'beyond-results', res.get_z, count)
    # a second result of the same problem is another result
    other = Table(rng, n, 2)
    ctx.call(ob.process_stepper_output, other)
    i, j = int(rng.integers(3)), int(rng.integers(count))
    ctx.close(get[i](j).AW, want[i][j], 'results-independent', rtol=tol)
    ctx.event('results')


def real_run(ctx):
    """The same for a genuine integration, through to the file."""
    from pynlo.interactions.ThreeWaveMixing.multi_run_rw import DFGWriter, DFGReader
    rng = ctx.rng
    q = dfg.problem(rng, kinds=('glass',), nlist=(16, 32))
    ob = dfg.build(ctx, q)
    a = dfg.integrate(ctx, q, ob, saves=int(rng.integers(1, 6)), rtol=1e-6)
    raw, z = a.out.ysave.copy(), a.out.xsave.copy()
    ctx.note(**dfg.describe(q))
    d = tempfile.mkdtemp(prefix='c32')
    try:
        f = os.path.join(d, 'r.h5')
        w = DFGWriter(f, 'power')
        ctx.call(w.add_run, ob, a, 1.25)
        res = ctx.call(ob.process_stepper_output, a.out)
        ctx.call(res.get_pump, 0)
        ctx.call(w.add_run, ob, a, 2.5)             # reading results changed nothing
        w.tables_file.close()
        r = DFGReader(f, 'power')
        ctx.close(r.run_ctr, 2, 'number-of-runs', rtol=0)
        for run in (0, 1):
            for j in range(a.out.count):
                got = r.get_run(run, j)
                for i in range(3):
                    check_pulse(ctx, got[i], raw[j, i * q.n:(i + 1) * q.n], q, i, q.frep, 'stored')
        r.tables_file.close()
    finally:
        shutil.rmtree(d)
    ctx.close(a.out.ysave, raw, 'solver-table-unchanged', rtol=0)
    ctx.close(a.out.xsave, z, 'solver-table-unchanged', rtol=0)
    ctx.event('integrations stored')


def verify(ctx, f, name, runs):
    """Read one parameter of a file back, in random order."""
    from pynlo.interactions.ThreeWaveMixing.multi_run_rw import DFGReader
    rng = ctx.rng
    r = ctx.call(DFGReader, f, name)
    try:
        ctx.need(r.run_ctr == len(runs), 'number-of-runs', got=r.run_ctr, want=len(runs))
        for step in range(int(rng.integers(2, 8))):
            k = int(rng.integers(len(runs)))
            last = rng.random() < .25
            if last:
                k = len(runs) - 1
            q, t, Y, par = runs[k]
            ctx.close(r.get_run_param() if last else r.get_run_param(k), par, 'run-parameter', rtol=1e-15)
            mode = int(rng.integers(3))
            c = Y.shape[0]
            j = c - 1 if mode == 0 else int(rng.integers(c))
            if last and mode == 0:
                got = r.get_run()
            elif mode == 0:
                got = r.get_run(k)
            elif mode == 1:
                got = r.get_run(k, j)
            else:
                got = r.get_run(run_num=k, z_num=j - c)
            ctx.need(len(got) == 3, 'three-fields')
            for i in range(3):
                check_pulse(ctx, got[i], Y[j, i * q.n:(i + 1) * q.n], q, i, q.frep, 'read')
            ctx.event('runs read')
        # one after the other, whatever was read in between
        for k, (q, t, Y, par) in enumerate(runs):
            j = int(rng.integers(Y.shape[0])) if rng.random() < .5 else None
            got = r.get_next_run() if j is None else r.get_next_run(j)
            ctx.need(got is not None, 'next-run-missing', k=k)
            for i in range(3):
                ctx.close(got[i].AW, Y[-1 if j is None else j, i * q.n:(i + 1) * q.n], 'next-run', rtol=1e-13)
            if rng.random() < .3:
                r.get_run(int(rng.integers(len(runs))))
        for _ in range(2):
            ctx.check(r.get_next_run() is None, 'no-run-after-the-last')
        for bad in (len(runs), len(runs) + 3, -1):
            ctx.raises(IndexError, 'run-out-of-range', r.get_run, bad)
            ctx.raises(IndexError, 'run-out-of-range', r.get_run_param, bad)
        ctx.raises(IndexError, 'position-out-of-range', r.get_run, 0, runs[0][2].shape[0] + 1)
    finally:
        r.tables_file.close()


def files(ctx):
    from pynlo.interactions.ThreeWaveMixing.multi_run_rw import DFGWriter, DFGReader
    rng = ctx.rng
    d = tempfile.mkdtemp(prefix='c32')
    try:
        paths = [os.path.join(d, 'a.h5'), os.path.join(d, 'b.h5')][:int(rng.integers(1, 3))]
        probs = [problem(ctx) for _ in range(int(rng.integers(1, 4)))]
        model = {f: {} for f in paths}
        history = []
        for step in range(int(rng.integers(2, 7))):
            f = paths[int(rng.integers(len(paths)))]
            name = gen.pick(rng, ['power', 'waist', 'T'])
            # run10 sorts before run2
            nruns = int(rng.integers(1, 5)) if (r := rng.random()) < .85 else int(rng.integers(10, 24)) if r < .98 else int(rng.integers(100, 140))
            history.append([f[-4], name, nruns, name in model[f]])
            w = ctx.call(DFGWriter, f, name)
            model[f][name] = []
            for _ in range(nruns):
                q, ob = probs[int(rng.integers(len(probs)))]
                t = Table(rng, q.n, int(rng.integers(1, 5)) if rng.random() < .97 else int(rng.integers(5, 1200)))
                Y = t.ysave[:t.count].copy()
                whole = t.ysave.copy()
                par = float(rng.normal() * 10 ** rng.uniform(-9, 9)) if rng.random() < .8 else int(rng.integers(-5, 50))
                ctx.call(w.add_run, ob, t, par)
                ctx.close(t.ysave, whole, 'table-unchanged-by-writing', rtol=0)
                t.ysave[:] = np.nan                 # the solver's buffer is reused
                model[f][name].append((q, t, Y, par))
                ctx.event('runs written')
            w.tables_file.close()
            if rng.random() < .5 or step == 0:
                g = gen.pick(rng, [v for v in paths if model[v]])
                p = gen.pick(rng, sorted(model[g]))
                verify(ctx, g, p, model[g][p])
        ctx.note(history=history)
        for f in paths:
            for name, runs in model[f].items():
                verify(ctx, f, name, runs)
        ctx.raises(Exception, 'unknown-parameter', DFGReader, paths[0], 'nothing') if model[paths[0]] else None
        import tables
        tables.file._open_files.close_all()
        ctx.event('rewritten' if any(h[3] for h in history) else 'fresh')
    finally:
        shutil.rmtree(d)


STRATA = [('results', results, 4), ('files', files, 4), ('real_run', real_run, 1)]
