# mkseed.py <id> <property> <needs> <what>   (patch = git diff of /repo now; demo from /tmp/demo/<id>.rs)
import sys,os,subprocess,json,shutil
i,p,n,w=sys.argv[1:5]
d=f'/verif/seeded/{i}'; os.makedirs(d,exist_ok=True)
df=subprocess.run(['git','-C','/repo','diff'],capture_output=True,text=True).stdout
assert df
open(d+'/patch.diff','w').write(df)
subprocess.run(['git','-C','/repo','checkout','-q','--','.'])
shutil.copy('/tmp/demo/raw.rs',d); shutil.copy('/tmp/demo/demo.sh',d); shutil.copy(f'/tmp/demo/{i}.rs',d+'/demo.rs')
json.dump(dict(property=p,needs=n,what_it_breaks=w),open(d+'/meta.json','w'),indent=1)
