import json,subprocess,sys,re
m=json.load(open('/tmp/vxw/all.json'))
for l in m['lost_functions']+m['lost_anchors']: print("LOST",l)
a=sys.argv[1:]
p=subprocess.run(['verus','/tmp/vxw/all.rs','--triggers-mode','silent','--error-format=json','--output-json','--time','--multiple-errors','5']+a,capture_output=True,text=True)
src=open('/tmp/vxw/all.rs').read().split('\n')
def fn(line):
    for f in m['functions']:
        if f['begin']<=line<f['end']: return f['key']
    for i in range(line-1,0,-1):
        k=re.match(r'\s*pub (open spec |proof |closed spec )?fn (\w+)',src[i])
        if k: return 'shim/th '+k.group(2)
    return '?'
n=0
for l in p.stderr.split('\n'):
    if not l.startswith('{'):
        if l.strip(): print(l)
        continue
    d=json.loads(l)
    if d['level'] not in('error',): 
        continue
    n+=1
    if n>int(__import__('os').environ.get('MAXE','30')): continue
    sp=d['spans']
    print('ERR',d['message'])
    for s in sp:
        print('   %s[%s] %d: %s  %s'%('*' if s['is_primary'] else ' ',fn(s['line_start']) if s['file_name'].endswith('all.rs') else s['file_name'],s['line_start'],(src[s['line_start']-1].strip()[:150] if s['file_name'].endswith('all.rs') else ''),s['label'] or ''))
    if not sp: print(d['rendered'][:600])
try:
    o=json.loads(p.stdout)
    print(o['verification-results'])
    t=o.get('times-ms',{})
    print('total ms',t.get('total'), 'smt', t.get('smt',{}).get('total') if isinstance(t.get('smt'),dict) else t.get('smt'))
    fs=[]
    for mod in t.get('smt',{}).get('smt-run-module-times',[]):
        for f in mod.get('function-breakdown',[]): fs.append((f['time'],f['function']))
    for x in sorted(fs,reverse=True)[:8]: print(x)
except Exception as e: print(p.stdout[-500:],e)
