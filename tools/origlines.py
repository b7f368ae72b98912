# for every planted bug: removed lines of the patch that were not in the original repository (base commit)
import re,subprocess,glob,os
base=subprocess.check_output(['git','-C','/repo','rev-list','--max-parents=0','HEAD'],text=True).strip()
for p in sorted(glob.glob('/verif/seeded/*/patch.diff')):
    f=None; bad=[]; n=0
    for l in open(p):
        if l.startswith('--- a/'): f=l[6:].strip(); src=set(subprocess.run(['git','-C','/repo','show',base+':'+f],stdout=subprocess.PIPE,text=True).stdout.split('\n'))
        elif l.startswith('-') and not l.startswith('---'):
            n+=1
            if l[1:].rstrip('\n') not in src: bad.append(l.strip())
    print(os.path.basename(os.path.dirname(p)), n, 'removed;', 'NOT ORIGINAL: %s'%bad if bad else 'ok')
