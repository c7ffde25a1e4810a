M = {'295b6f0':'C15','5ff3f0d':'C19','73e9214':'C11','9526fc2':'C17','9360595':'C02','d9a1d13':'C18','330ae16':'C20','def0156':'C02',
'c057fb0':'C18','9cfa4d6':'C11','11737ff':'C02','017ddeb':'C08','fc7b4f9':'C08','604348b':'C14','c1e3c68':'C14','d4f3852':'C14',
'4137313':'C13','3fddb96':'C13','20702bb':'C03','dbff363':'C03','87d93da':'C07','0641d2d':'C05','4266de5':'C06','2b37fce':'C06',
'dc91510':'C05','597be2a':'C02','59a1cff':'C02','e37062d':'C17','634562f':'C17'}
import subprocess, os
out = subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s']).decode().splitlines()
with open(os.path.join(os.path.dirname(__file__),'..','known_findings.txt'),'w') as f:
    f.write('# Genuine defects of bootphon/ABXpy found by the checks. "fixed:" entries suppress nothing.\n')
    for l in out:
        h, s = l.split(' ',1)
        if s.startswith('fix: '):
            f.write('fixed: property=%s %s %s\n' % (M[h], h, s[5:]))
