"""applies each planted bug to a copy of /repo and runs the check of its property"""
import os,sys,json,subprocess,shutil

ids=sys.argv[1:] or sorted(os.listdir('/verif/seeded'))
for id in ids:
    m=json.load(open('/verif/seeded/%s/meta.json'%id)); c=m['property']
    dst='/tmp/sc_'+id
    shutil.rmtree(dst,ignore_errors=True)
    subprocess.run(['cp','-a','/repo',dst],check=True)
    subprocess.run(['git','apply','/verif/seeded/%s/patch.diff'%id],cwd=dst,check=True)
    r=subprocess.run(['/verif/check.sh',c,'quick'],env=dict(os.environ,MC_REPO=dst),capture_output=True,text=True)
    print(id,c,r.returncode,'caught' if r.returncode==1 and 'VIOLATION property=%s'%c in r.stdout else 'MISSED',flush=True)
    shutil.rmtree(dst)
