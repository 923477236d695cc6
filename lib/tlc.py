"""Run TLC on a module of /verif/specs and read back what it found."""

import json
import os
import re
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SPECS = os.path.join(os.path.dirname(HERE), 'specs')
JARS = ':'.join(['/opt/veriftools/tla/tla2tools.jar',
                 '/opt/veriftools/tla/CommunityModules-deps.jar'])


class TLCError(RuntimeError):
    pass


class Result(object):
    def __init__(self, out, rc):
        self.out = out
        self.rc = rc
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        self.states = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0
        self.ok = rc == 0 and 'Error:' not in out
        m = re.search(r'Invariant (\S+) is violated', out)
        self.violated = m.group(1) if m else None

    def coverage(self):
        """Per-action <<distinct, total>> counts (needs coverage=True)."""
        cov = {}
        for m in re.finditer(r'^<(\w+) line .*?>: (\d+):(\d+)', self.out, re.M):
            cov[m.group(1)] = (int(m.group(2)), int(m.group(3)))
        return cov


def run(module, cfg='', env=None, workers=1, timeout=600, heap='3g',
        coverage=False, deadlock=False, extra=(), spec_text=None):
    """Run TLC; `cfg` is the text of the configuration."""
    work = tempfile.mkdtemp(prefix='tlc_')
    try:
        cwd = SPECS
        if spec_text is not None:
            for f in os.listdir(SPECS):
                if f.endswith('.tla'):
                    shutil.copy(os.path.join(SPECS, f), work)
            with open(os.path.join(work, module + '.tla'), 'w') as f:
                f.write(spec_text)
            cwd = work
        cfgp = os.path.join(work, module + '.cfg')
        with open(cfgp, 'w') as f:
            f.write(cfg)
        cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2',
               '-XX:TieredStopAtLevel=4',
               '-Xmx' + heap, '-Xss256m', '-Djava.io.tmpdir=' + work,
               '-cp', JARS, 'tlc2.TLC', '-noGenerateSpecTE',
               '-metadir', os.path.join(work, 'states'),
               '-workers', str(workers), '-config', cfgp]
        if not deadlock:
            cmd.append('-deadlock')
        if coverage:
            cmd += ['-coverage', '1']
        cmd += list(extra)
        cmd.append(module + '.tla')
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        e.pop('JAVA_TOOL_OPTIONS', None)
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
        return Result(p.stdout.decode('utf8', 'replace'), p.returncode)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def start(module, cfg, env, heap='2g'):
    """Start TLC without waiting; returns (Popen, workdir)."""
    work = tempfile.mkdtemp(prefix='tlc_')
    cfgp = os.path.join(work, module + '.cfg')
    with open(cfgp, 'w') as f:
        f.write(cfg)
    cmd = ['java', '-XX:+UseSerialGC', '-Xmx' + heap, '-Xss256m',
           '-Djava.io.tmpdir=' + work, '-cp', JARS, 'tlc2.TLC',
           '-noGenerateSpecTE', '-metadir', os.path.join(work, 'states'),
           '-workers', '1', '-deadlock', '-config', cfgp, module + '.tla']
    e = dict(os.environ)
    e.update({k: str(v) for k, v in env.items()})
    e.pop('JAVA_TOOL_OPTIONS', None)
    out = open(os.path.join(work, 'out'), 'wb')
    return subprocess.Popen(cmd, cwd=SPECS, env=e, stdout=out,
                            stderr=subprocess.STDOUT), work


def batch(module, queries, cfg='', jobs=4, timeout=800, heap='2g', min_chunk=40):
    """Evaluate `module`'s answer to every query (a list of JSON objects).

    The module reads IOEnv.QIN, writes IOEnv.QOUT (ndjson, one line a query).
    Returns (answers, [Result])."""
    if not queries:
        return [], []
    jobs = max(1, min(jobs, (len(queries) + min_chunk - 1) // min_chunk))
    work = tempfile.mkdtemp(prefix='tlcq_')
    procs = []
    try:
        # round-robin so that expensive queries spread over the processes
        idx = [list(range(j, len(queries), jobs)) for j in range(jobs)]
        for j in range(jobs):
            qin = os.path.join(work, 'in%d.ndjson' % j)
            with open(qin, 'w') as f:
                for i in idx[j]:
                    f.write(json.dumps(queries[i]) + '\n')
            p, w = start(module, cfg, {
                'QIN': qin, 'QOUT': os.path.join(work, 'out%d.ndjson' % j)},
                heap=heap)
            procs.append((p, w))
        answers = [None] * len(queries)
        results = []
        for j, (p, w) in enumerate(procs):
            p.wait(timeout=timeout)
            with open(os.path.join(w, 'out'), 'rb') as f:
                res = Result(f.read().decode('utf8', 'replace'), p.returncode)
            results.append(res)
            outp = os.path.join(work, 'out%d.ndjson' % j)
            if not os.path.exists(outp) or not res.ok:
                raise TLCError('TLC failed on %s:\n%s' % (module, res.out[-4000:]))
            with open(outp) as f:
                lines = f.read().splitlines()
            if len(lines) != len(idx[j]):
                raise TLCError('%s answered %d of %d queries' % (
                    module, len(lines), len(idx[j])))
            for i, ln in zip(idx[j], lines):
                answers[i] = json.loads(ln)
        return answers, results
    finally:
        for p, w in procs:
            if p.poll() is None:
                p.kill()
            shutil.rmtree(w, ignore_errors=True)
        shutil.rmtree(work, ignore_errors=True)
