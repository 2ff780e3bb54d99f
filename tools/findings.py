"""Rewrites the fixed: lines of known-findings.txt from the fix: commits of /repo and tools/fixes.json (run by hand after a fix)."""
import subprocess
M={}
W={'8cf93d9':'responses delimited by the end of the connection always failed with RemoteHostClosedError, the buffered end of a response was lost when the server closed, and requests made in finished() of a failed one never went out'}
W['a8cf754']='abort() between a parse error and the finished() it causes hit an assertion (introduced by 8cf93d9, never released)'
lines=[l for l in open('/verif/known-findings.txt') if not l.startswith('fixed:')]
out=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s'],text=True).splitlines()
import json,os
extra=json.load(open('/verif/tools/fixes.json')) if os.path.exists('/verif/tools/fixes.json') else {}
M.update(extra)
for l in out:
    h,s=l.split(' ',1)
    if s.startswith('fix: '):
        lines.append('fixed: property=%s %s %s\n'%(M[h],h,W.get(h,s[5:])))
open('/verif/known-findings.txt','w').writelines(lines)
