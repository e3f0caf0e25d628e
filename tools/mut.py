import sys, os, shutil, subprocess, concurrent.futures as cf
sys.dont_write_bytecode=True
def run(spec):
    name, edits, checks = spec
    d='/tmp/w/m_'+name
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree('/repo/hiku', d+'/hiku', ignore=shutil.ignore_patterns('__pycache__'))
    shutil.copytree('/repo/tests', d+'/tests', ignore=shutil.ignore_patterns('__pycache__'))
    for f in ('setup.cfg','pytest.ini','tox.ini','pyproject.toml'):
        if os.path.exists('/repo/'+f): shutil.copy('/repo/'+f,d)
    try:
        for f,old,new in edits:
            p=d+'/'+f; t=open(p).read()
            if t.count(old)<1: return name, 'NOMATCH '+f
            t=t.replace(old,new,1); open(p,'w').write(t)
        out=[]
        r=subprocess.run(['/opt/venv/bin/python','-B','-m','pytest','-q','-x','-p','no:cacheprovider','tests'],cwd=d,capture_output=True,text=True,timeout=300)
        out.append('tests:rc=%d'%r.returncode)
        for c in checks:
            e=dict(os.environ,HIKUSTAT_REPO=d,HIKUSTAT_EVID=d+'/ev')
            r=subprocess.run(['/opt/venv/bin/python','-B','/verif/check.py',c,'quick'],cwd='/verif',capture_output=True,text=True,env=e,timeout=900)
            L=[l for l in r.stdout.splitlines() if l.startswith('  [') or 'undecided:' in l or 'lost' in l]
            out.append('%s rc=%d  %s'%(c,r.returncode,' || '.join(x.strip()[:230] for x in L[:2])+(r.stderr[-300:] if r.returncode not in(0,1) else '')))
        return name, '\n      '.join(out)
    except Exception as e:
        return name, repr(e)
    finally:
        shutil.rmtree(d, ignore_errors=True)
def main(specs):
    only=sys.argv[1:]
    if only: specs=[s for s in specs if any(o in s[0] for o in only)]
    with cf.ThreadPoolExecutor(3) as ex:
        for n,o in ex.map(run,specs): print('==',n,'\n      '+o,flush=True)
